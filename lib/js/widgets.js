// Stand-ins for the widget packages: they keep the contract between the
// packages and their callers (what they render, which handlers they call).
const R = require("./react.js");
const e = R.createElement;
const cls = (...a) => a.filter(x => x).join(" ");

// @blueprintjs/core
exports.FocusStyleManager = {onlyShowFocusOnTabs() {}};
exports.Button = p => e("button", {className: cls("bp3-button", p.className), disabled: p.disabled, onClick: p.onClick}, p.text, p.children);
exports.ButtonGroup = p => e("div", {className: cls("bp3-button-group", p.className)}, p.children);
exports.Card = p => e("div", {className: cls("bp3-card", p.className)}, p.children);
exports.Label = p => e("label", {className: cls("bp3-label", p.className)}, p.children);
exports.Switch = p => e("label", {className: "bp3-switch"}, e("input", {type: "checkbox", checked: p.checked ? "checked" : null, onChange: p.onChange, onClick: p.onChange && (() => p.onChange({target: {checked: !p.checked}, currentTarget: {checked: !p.checked}}))}), p.label);
exports.NumericInput = p => e("input", {className: "bp3-numeric", value: p.value, type: "text", onValue: v => p.onValueChange && p.onValueChange(v, String(v))});
exports.Tab = p => p.panel;
class Tabs extends R.Component {
  constructor(p) { super(p); this.state = {id: p.defaultSelectedTabId}; }
  render() {
    const tabs = R.Children.toArray(this.props.children).filter(t => t.type === exports.Tab);
    const ids = tabs.map(t => t.props.id), id = this.props.selectedTabId !== undefined ? this.props.selectedTabId : ids.includes(this.state.id) ? this.state.id : ids[0];
    const pick = k => { this.setState({id: k}); if (this.props.onChange) this.props.onChange(k, id); };
    return e("div", {className: cls("bp3-tabs", this.props.className)}, tabs.map(t => e("div", {key: "t" + t.props.id, className: "bp3-tab", "data-tab-id": t.props.id, onClick: () => pick(t.props.id)}, t.props.title)),
      tabs.map(t => (t.props.id === id || !this.props.renderActiveTabPanelOnly ? e("div", {key: "p" + t.props.id, className: "bp3-tab-panel", "data-panel-id": t.props.id, "aria-hidden": t.props.id === id ? null : "true"}, t.props.panel) : null)));
  }
}
Tabs.Expander = () => e("div", {className: "bp3-flex-expander"});
exports.Tabs = Tabs;
exports.Popover2 = p => e("span", {className: "bp3-popover2"}, p.children, p.isOpen === false ? null : e("div", {className: "bp3-popover-content"}, p.content));
exports.SketchPicker = p => e("div", {className: "sketch-picker", "data-color": p.color, onPick: (c, ev) => p.onChange(c, ev)});

// react-datasheet
const Cell = p => e("td", Object.assign({className: "cell"}, p.attributes), p.children);
class DataSheet extends R.Component {
  render() {
    const p = this.props, S = p.sheetRenderer || (q => e("table", {className: q.className}, e("tbody", null, q.children))), Row = p.rowRenderer || (q => e("tr", null, q.children));
    return e("span", {className: "data-grid-container", onSheet: f => f(p)},
      e(S, {data: p.data, className: cls("data-grid", p.className)}, p.data.map((row, i) => e(Row, {key: i, row: i, cells: row}, row.map((cell, j) =>
        e(Cell, {key: j, attributes: Object.assign({"data-row": i, "data-col": j}, p.attributesRenderer ? p.attributesRenderer(cell, i, j) : {})}, p.valueRenderer(cell, i, j)))))));
  }
}
exports.ReactDataSheet = DataSheet;
exports.DataEditor = p => e("input", {className: "data-editor", value: p.value, onChange: ev => p.onChange(ev.target.value)});

// react-copy-to-clipboard, @macrostrat/ui-components
exports.CopyToClipboard = p => e("span", {className: "copy", "data-text": p.text}, p.children);
exports.ErrorBoundary = p => e(R.Fragment, null, p.children);
const store = {};
exports.store = store;
exports.useStoredState = (key, initial, valid) => {
  const [v, set] = R.useState(() => { if (key in store) { const s = JSON.parse(store[key]); if (!valid || valid(s)) return s; } return initial; });
  return [v, n => { set(n); store[key] = JSON.stringify(n); }, () => { set(initial); delete store[key]; }];
};
exports.__esModule = true;
