const w = require("./widgets.js");
module.exports = w.ReactDataSheet;
module.exports.default = w.ReactDataSheet;
module.exports.DataEditor = w.DataEditor;
module.exports.__esModule = true;
