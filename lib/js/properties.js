module.exports = require("./small.js").properties;
