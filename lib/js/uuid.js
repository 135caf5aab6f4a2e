module.exports = {v4: require("./small.js").v4};
