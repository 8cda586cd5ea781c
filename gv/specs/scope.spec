// C16: scopes. A call of Env.Get, also the recursive one, is an event "Get".
event core.Env.Get Get quiet

def nseg(key) = split_len(key, ".")
def seg(key, i) = splitpart(key, ".", i)
def optional(s) = len(s) > 0 && s[len(s) - 1] == 63
def bare(s) = if optional(s) then substr(s, 0, len(s) - 1) else s
fn split_len(string, string) int;

def isScopeMap(v) = is(v, map[string]*YispNode)
def walkable(n) = isScopeMap(n.Value) || is(n.Value, *YispMap)
def memberOf(n, s) =
  if isScopeMap(n.Value) then (if mhas(n.Value.(map[string]*YispNode), s) then n.Value.(map[string]*YispNode)[s] else nil)
  else if is(n.Value, *YispMap) then (if omhas(mp(n), s) && node(omget(mp(n), s)) then omget(mp(n), s).(*YispNode) else nil)
  else nil

contract core.Env.Get(e, key)(r, ok) {
  prop C16
  maybenil
  ensures up: !mhas(e.Vars, bare(seg(key, 0))) && e.Parent != nil ==>
          nev == 1 && evis(0, "Get") && evrecv(0, "Get") == ref(e.Parent) && evarg(0, "Get", 0) == key && r == evres(0, "Get") && (ok <==> evok(0))
  ensures top: !mhas(e.Vars, bare(seg(key, 0))) && e.Parent == nil ==> nev == 0 && (ok <==> optional(seg(key, 0))) && (ok ==> r.Kind == KindNull)
  fold at(k) *YispNode = e.Vars[bare(seg(key, 0))] ; memberOf(at, bare(seg(key, k + 1)))
  ensures local: mhas(e.Vars, bare(seg(key, 0))) ==> nev == 0
  ensures found: mhas(e.Vars, bare(seg(key, 0))) && (forall j in 0..nseg(key): at(j) != nil) ==> ok && r == at(nseg(key) - 1)
  ensures missing: mhas(e.Vars, bare(seg(key, 0))) ==> forall j in 1..nseg(key): (forall i in 0..j: at(i) != nil) && at(j) == nil ==>
           (ok <==> optional(seg(key, j)) && walkable(at(j - 1))) && (ok ==> r.Kind == KindNull)
  inv copied: (mhas(?g, bare(seg(key, $k1 + 1))) <==> memberOf(?n, bare(seg(key, $k1 + 1))) != nil && omidx(mp(?n), bare(seg(key, $k1 + 1))) < $k)
           && (mhas(?g, bare(seg(key, $k1 + 1))) ==> ?g[bare(seg(key, $k1 + 1))] == memberOf(?n, bare(seg(key, $k1 + 1))))
  inv old: !fresh(?n)
  inv at: ?n == at($k)
  inv sofar: forall i in 0..$k+1: at(i) != nil
}

contract core.Env.CreateChild(e)(r) {
  prop C16
  ensures child: fresh(r) && r.Parent == e && fresh(r.Vars)
  ensures empty: len(r.Vars) == 0
}
contract core.Env.Set(e, key, value)() {
  prop C16
  requires vars: e.Vars != nil
  modifies "MH:string,*core.YispNode" "MV:string,*core.YispNode" "MN:string,*core.YispNode"
  ensures bound: mhas(e.Vars, key) && e.Vars[key] == value
}
// the outermost scope
rel rootOf(e *Env) *Env = if e.Parent == nil then e else rootOf(e.Parent)
contract core.Env.Root(e)(r) {
  prop C16
  modular
  ensures outermost: r != nil && r.Parent == nil && r == rootOf(e)
}
// a copy with the same bindings and the same enclosing scope, sharing nothing
contract core.Env.Clone(e)(r) {
  prop C16
  ensures copy: fresh(r) && r.Parent == e.Parent && fresh(r.Vars)
  ensures bindings: forall s string: (mhas(r.Vars, s) <==> mhas(e.Vars, s)) && (mhas(e.Vars, s) ==> r.Vars[s] == e.Vars[s])
}
contract core.NewEnv()(r) {
  prop C16
  ensures top: fresh(r) && r.Parent == nil && fresh(r.Vars)
  ensures types: forall s string: mhas(r.Vars, s) <==> s == "null" || s == "bool" || s == "int" || s == "float" || s == "string"
  ensures named: r.Vars["null"].Value.(*Schema).Type == "null" && r.Vars["bool"].Value.(*Schema).Type == "boolean" && r.Vars["int"].Value.(*Schema).Type == "integer"
                 && r.Vars["float"].Value.(*Schema).Type == "float" && r.Vars["string"].Value.(*Schema).Type == "string"
}
