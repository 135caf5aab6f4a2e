const d3 = require("d3");
module.exports = d3.selection.prototype.selectAppend;
