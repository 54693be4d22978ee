// Lists small changes ("mutants") of TypeScript sources as JSON lines (see gomut).
const ts = require("/opt/veriftools/node/node_modules/typescript"), fs = require("fs");
const K = ts.SyntaxKind;
const ops = { "<": ["<=", ">"], "<=": ["<"], ">": [">=", "<"], ">=": [">"], "===": ["!=="], "!==": ["==="], "==": ["!="], "!=": ["=="],
  "&&": ["||"], "||": ["&&"], "+": ["-"], "-": ["+"], "*": ["/"], "/": ["*"], "<<": [">>"], ">>": ["<<"], "&": ["|"], "|": ["&"] };
for (const fn of process.argv.slice(2)) {
  const src = fs.readFileSync(fn, "utf8");
  const sf = ts.createSourceFile(fn, src, ts.ScriptTarget.Latest, true);
  let cur = "";
  const put = (a, b, s, kind) => console.log(JSON.stringify({ file: fn, off: a, end: b, new: s, kind, line: sf.getLineAndCharacterOfPosition(a).line + 1, func: cur }));
  const visit = (n) => {
    const old = cur;
    if (ts.isFunctionLike(n) && n.name) cur = n.name.getText();
    if (ts.isTypeNode(n) || ts.isInterfaceDeclaration(n) || ts.isTypeAliasDeclaration(n)) return;
    if (ts.isBinaryExpression(n)) {
      const o = n.operatorToken;
      for (const r of ops[o.getText()] || []) put(o.getStart(), o.getEnd(), r, `op ${o.getText()} ${r}`);
    }
    if (ts.isNumericLiteral(n) && n.text.length < 6) { put(n.getStart(), n.getEnd(), `(${n.getText()}+1)`, "lit+1"); if (n.text !== "0") put(n.getStart(), n.getEnd(), `(${n.getText()}-1)`, "lit-1"); }
    if (ts.isIfStatement(n)) {
      const e = n.expression;
      put(e.getStart(), e.getEnd(), `!(${e.getText()})`, "negate if");
      put(e.getStart(), e.getEnd(), `false && (${e.getText()})`, "if false");
    }
    if (ts.isConditionalExpression(n)) put(n.condition.getStart(), n.condition.getEnd(), `!(${n.condition.getText()})`, "negate cond");
    if (ts.isElementAccessExpression(n)) put(n.argumentExpression.getStart(), n.argumentExpression.getEnd(), `(${n.argumentExpression.getText()})+1`, "index+1");
    if (ts.isExpressionStatement(n)) put(n.getStart(), n.getEnd(), ";", "delete stmt");
    if (ts.isAwaitExpression(n) && ts.isExpressionStatement(n.parent)) put(n.getStart(), n.getEnd(), n.expression.getText(), "no await");
    if (ts.isBreakStatement(n) || ts.isContinueStatement(n)) put(n.getStart(), n.getEnd(), ";", "delete branch");
    if (ts.isThrowStatement(n)) put(n.getStart(), n.getEnd(), ";", "delete throw");
    if (n.kind === K.TrueKeyword && !ts.isLiteralTypeNode(n.parent)) put(n.getStart(), n.getEnd(), "false", "true->false");
    if (n.kind === K.FalseKeyword && !ts.isLiteralTypeNode(n.parent)) put(n.getStart(), n.getEnd(), "true", "false->true");
    if (ts.isCallExpression(n) && ts.isPropertyAccessExpression(n.expression) && ["slice", "subarray"].includes(n.expression.name.text))
      for (const a of n.arguments) put(a.getStart(), a.getEnd(), `(${a.getText()})+1`, "slice+1");
    ts.forEachChild(n, visit);
    cur = old;
  };
  visit(sf);
}
