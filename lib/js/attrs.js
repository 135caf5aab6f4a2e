module.exports = require("./small.js").attrs;
