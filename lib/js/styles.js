module.exports = require("./small.js").styles;
