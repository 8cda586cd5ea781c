// C13: no output leaves without type verification. C17: running a stream.
event core.VerifyTypes Verify quiet
event core.YispNode.ToNative Native quiet

// a call VerifyTypes(item, allow) for item i of the list, entry i of the map
def vchild(node, i) = if node.Kind == KindArray then lst(node)[i] else omget(mp(node), omkey(mp(node), i))
def vsize(node) = if node.Kind == KindArray && is(node.Value, []any) then len(lst(node)) else if node.Kind == KindMap && isMap(node) then omlen(mp(node)) else 0
contract core.VerifyTypes(node, allowUntypedManifest)(err) {
  prop C13
  ensures own: err == nil && node.Type != nil && !allowUntypedManifest ==> conforms(node.Type, node)
  ensures shape: err == nil ==> (node.Kind == KindArray ==> is(node.Value, []any)) && (node.Kind == KindMap ==> isMap(node))
  fold seen(k) int = 0 ; if node(vchild(node, k)) then seen + 1 else seen
  ensures children: err == nil ==> nev == seen(vsize(node)) && (forall i in 0..vsize(node): node(vchild(node, i)) ==> verified(node, i, seen(i), allowUntypedManifest))
  ensures [C13] complete: (node.Type == nil || allowUntypedManifest || conforms(node.Type, node)) && (node.Kind == KindArray ==> is(node.Value, []any)) && (node.Kind == KindMap ==> isMap(node)) && (forall j in 0..nev: everr(j, "Verify") == nil) ==> err == nil
  inv count: nev == seen($k)
  inv range: forall i in 0..$k: 0 <= seen(i) && (node(vchild(node, i)) ==> seen(i) < nev)
  inv verified: forall i in 0..$k: node(vchild(node, i)) ==> verified(node, i, seen(i), allowUntypedManifest)
  inv fine: forall j in 0..nev: everr(j, "Verify") == nil
}
def verified(node, i, j, allow) = evis(j, "Verify") && any(evarg(j, "Verify", 0)) == vchild(node, i) && evarg(j, "Verify", 1) == allow && everr(j, "Verify") == nil

// every way of producing output from an evaluated document
def checked(e, j, n) = evis(j, "Verify") && evarg(j, "Verify", 0) == n && evarg(j, "Verify", 1) == e.allowUntypedManifest && everr(j, "Verify") == nil
def rendered(j, e, n) = evis(j, "Render") && evrecv(j, "Render") == any(e) && evarg(j, "Render", 0) == n
// evaluation is event i, then the check unless it is switched off, then the rendering
def verifiedOutput(e, i) = if e.disableTypeCheck then nev == i + 2 && rendered(i + 1, e, evres(i)) else nev == i + 3 && checked(e, i + 1, evres(i)) && rendered(i + 2, e, evres(i))
contract engine.engine.EvaluateFileToYamlWithEnv(e, path, env)(r, err) {
  prop C13
  ensures output: err == nil ==> evis(0, "Load") && evarg(0, "Load", 0) == path && evarg(0, "Load", 2) == env && everr(0) == nil && verifiedOutput(e, 0)
  ensures nothing: nev > 0 && everr(0) != nil ==> nev == 1 && err != nil
  ensures refused: nev > 1 && evis(1, "Verify") && everr(1, "Verify") != nil ==> nev == 2 && err != nil
}
contract engine.engine.EvaluateFileToYaml(e, path)(r, err) {
  prop C13
  ensures output: err == nil ==> evis(0, "Load") && evarg(0, "Load", 0) == path && everr(0) == nil && verifiedOutput(e, 0)
  ensures refused: nev > 1 && evis(1, "Verify") && everr(1, "Verify") != nil ==> nev == 2 && err != nil
}
contract engine.engine.EvaluateReaderToYamlWithEnv(e, reader, env, location)(r, err) {
  prop C13
  ensures output: err == nil ==> evis(0, "Run") && evarg(0, "Run", 0) == reader && evarg(0, "Run", 1) == env && everr(0) == nil && verifiedOutput(e, 0)
  ensures refused: nev > 1 && evis(1, "Verify") && everr(1, "Verify") != nil ==> nev == 2 && err != nil
}
contract engine.engine.EvaluateReaderToYaml(e, reader, location)(r, err) {
  prop C13
  ensures output: err == nil ==> evis(0, "Run") && evarg(0, "Run", 0) == reader && everr(0) == nil && verifiedOutput(e, 0)
  ensures refused: nev > 1 && evis(1, "Verify") && everr(1, "Verify") != nil ==> nev == 2 && err != nil
}
contract engine.engine.EvaluateFileToAny(e, path)(r, err) {
  prop C13
  ensures output: err == nil ==> evis(0, "Load") && evarg(0, "Load", 0) == path && everr(0) == nil
     && (if e.disableTypeCheck then nev == 2 && evis(1, "Native") && evrecv(1, "Native") == ref(evres(0)) else nev == 3 && checked(e, 1, evres(0)) && evis(2, "Native") && evrecv(2, "Native") == ref(evres(0)))
  ensures refused: nev > 1 && evis(1, "Verify") && everr(1, "Verify") != nil ==> nev == 2 && err != nil
}
