// C20: the parser. The YAML nodes are not changed while they are parsed. The
// value node of a document root carries the position, style and comments of its
// document node, so those are kept apart from the shape.
def place(f, y, r) = fromFile(r, f) && r.Attr.Sources[0].Line == y.Line && r.Attr.Sources[0].Column == y.Column
  && r.Attr.HeadComment == y.HeadComment && r.Attr.LineComment == y.LineComment && r.Attr.FootComment == y.FootComment && r.Attr.Style == y.Style
def underKey(y, r) = r.Attr.KeyStyle == y.Style && r.Attr.KeyHeadComment == y.HeadComment && r.Attr.KeyLineComment == y.LineComment && r.Attr.KeyFootComment == y.FootComment
def kid(y, i) = y.Content[i]
// the pairs of a mapping, by name: their number, and the text of the i-th key
fn half(*yaml.Node) int;
fn nodeKey(*yaml.Node, int) string;
def pairs(y) = 2 * half(y) == len(y.Content) && (forall i in 0..half(y): nodeKey(y, i) == kid(y, 2 * i).Value)
def scalarKind(tag) = if tag == "!null" || tag == "!!null" then KindNull else if tag == "!bool" || tag == "!!bool" then KindBool
  else if tag == "!int" || tag == "!!int" then KindInt else if tag == "!float" || tag == "!!float" then KindFloat else KindString

// parseable: the trees a decoder produces
rel parseable(y *yaml.Node) bool = y.Kind == yaml.ScalarNode || y.Kind == yaml.AliasNode
  || y.Kind == yaml.SequenceNode && (forall i in 0..len(y.Content): kid(y, i) != nil && kid(y, i).Kind != yaml.DocumentNode && parseable(kid(y, i)))
  || y.Kind == yaml.MappingNode && pairs(y) && (forall i in 0..len(y.Content): kid(y, i) != nil && kid(y, i).Kind != yaml.DocumentNode && parseable(kid(y, i)))
  || y.Kind == yaml.DocumentNode && y.Anchor == "" && len(y.Content) == 1 && kid(y, 0) != nil && kid(y, 0).Kind != yaml.DocumentNode && parseable(kid(y, 0))

// no key twice, and none that looks like the name of a merge key
def ownKeys(y) = (forall i in 0..half(y): !mergeKey(nodeKey(y, i)))
  && (forall i in 0..half(y): forall j in 0..i: nodeKey(y, i) == nodeKey(y, j) ==> nodeKey(y, i) == "<<")
def keyFor(y, i, k) = if nodeKey(y, i) == "<<" then mergeKey(k) else k == nodeKey(y, i)
def parsedChild(f, y, x) = is(x, *YispNode) && place(f, y, x.(*YispNode)) && shaped(f, y, x.(*YispNode))
rel shaped(f string, y *yaml.Node, r *YispNode) bool = r.Tag == y.Tag && r.Anchor == y.Anchor
  && (y.Kind == yaml.ScalarNode ==> r.Kind == scalarKind(y.Tag) && r.Value == any(y.Value))
  && (y.Kind == yaml.AliasNode ==> r.Kind == KindSymbol && r.Value == any(y.Value))
  && (y.Kind == yaml.SequenceNode ==> r.Kind == KindArray && isList(r) && len(lst(r)) == len(y.Content) && (forall i in 0..len(y.Content): parsedChild(f, kid(y, i), lst(r)[i])))
  && (y.Kind == yaml.MappingNode ==> r.Kind == KindMap && isMap(r) && parsedMap(f, y, mp(r), half(y)))
def parsedMap(f, y, m, n) = omlen(m) <= n
  && (ownKeys(y) ==> omlen(m) == n && (forall i in 0..n: keyFor(y, i, omkey(m, i)) && parsedChild(f, kid(y, 2 * i + 1), omget(m, omkey(m, i))) && underKey(kid(y, 2 * i), omget(m, omkey(m, i)).(*YispNode))))

def earlier(x) = x.(*YispNode) < next() && base(x.(*YispNode).Attr.Sources) < next()
def before(x, r) = x.(*YispNode) != r && base(x.(*YispNode).Attr.Sources) < next()
contract engine.Parse(filename, node)(r, err) {
  prop C20
  modular
  maybenil
  defines shaped
  defines parseable
  requires wellformed: parseable(node)
  ensures total: err == nil && r != nil
  ensures fresh: fresh(r)
  ensures recent: fresh(base(r.Attr.Sources)) && base(r.Attr.Sources) < next()
  ensures apart: (node.Kind == yaml.SequenceNode ==> forall i in 0..len(lst(r)): before(lst(r)[i], r))
    && (node.Kind == yaml.MappingNode && ownKeys(node) ==> forall i in 0..half(node): before(omget(mp(r), omkey(mp(r), i)), r))
  ensures place: place(filename, node, r)
  ensures shaped: node.Kind != yaml.DocumentNode ==> shaped(filename, node, r)
  ensures shape: node.Kind != yaml.DocumentNode ==> unfold(shaped(filename, node, r))
  ensures document: node.Kind == yaml.DocumentNode ==> shaped(filename, kid(node, 0), r)
  inv items: forall i in 0..$k: parsedChild(filename, kid(node, i), ?s[i])
  inv older: forall i in 0..$k: earlier(?s[i])
  inv elder: ownKeys(node) ==> forall i in 0..$k: earlier(omget(?m, omkey(?m, i)))
  inv step: ?i == 2 * $k
  inv bound: ?i == 2 * $k ==> $k <= half(node)
  inv current: $k < half(node) ==> nodeKey(node, $k) == kid(node, ?i).Value
  inv count: omlen(?m) <= $k
  inv own: ownKeys(node) ==> omlen(?m) == $k
  inv keys: ownKeys(node) ==> forall i in 0..$k: keyFor(node, i, omkey(?m, i))
  inv values: ownKeys(node) ==> forall i in 0..$k: parsedChild(filename, kid(node, 2 * i + 1), omget(?m, omkey(?m, i)))
  inv under: ownKeys(node) ==> forall i in 0..$k: underKey(kid(node, 2 * i), omget(?m, omkey(?m, i)).(*YispNode))
}
