// C22: dispatch. C16: function application.
def name(car) = car.Value.(string)
def isName(car) = car.Kind == KindString && is(car.Value, string)
def inLib(car) = split_len(name(car), ".") == 2
def builtins() = global("engine.operators")
def libs() = global("lib.operators")
def libKey(car) = key2("lib.operators", splitpart(name(car), ".", 0), splitpart(name(car), ".", 1))
def known(car) = (split_len(name(car), ".") == 1 && mhas(builtins(), name(car))) || (inLib(car) && mhas(libs(), libKey(car)))
def bound(car) = if inLib(car) then libs()[libKey(car)] else builtins()[name(car)]

// function application
def fun(car) = car.Value.(*Lambda)
def isFun(car) = car.Kind == KindLambda && is(car.Value, *Lambda)
def accepts(car, cdr, n) = forall i in 0..n: fun(car).Arguments[i].Schema == nil || conforms(fun(car).Arguments[i].Schema, cdr[i])
def lastNamed(car, i) = forall j in i+1..len(fun(car).Arguments): fun(car).Arguments[j].Name != fun(car).Arguments[i].Name

contract engine.engine.Apply(e, car, cdr, env, mode)(r, err) {
  prop C22
  ensures other: car.Kind != KindLambda && car.Kind != KindString ==> err != nil && nev == 0
  ensures notext: car.Kind == KindString && !is(car.Value, string) ==> err != nil && nev == 0
  ensures unknown: isName(car) && !known(car) ==> err != nil && nev == 0
  ensures dispatch: isName(car) && known(car) ==> nev == 1 && evis(0, "Op") && evrecv(0, "Op") == ref(bound(car))
          && evarg(0, "Op", 0) == cdr && evarg(0, "Op", 2) == mode && evarg(0, "Op", 3) == any(e)
          && evenv(0, "Op", 1, "Parent") == env && (forall s string: !evenvhas(0, "Op", 1, s))
          && r == evres(0) && err == everr(0)
  ensures [C16] notfun: car.Kind == KindLambda && !is(car.Value, *Lambda) ==> err != nil && nev == 0
  ensures [C16] arity: isFun(car) && len(cdr) != len(fun(car).Arguments) ==> err != nil && nev == 0
  ensures [C16] refused: isFun(car) && len(cdr) == len(fun(car).Arguments) && !accepts(car, cdr, len(cdr)) ==> err != nil && nev == 0
  ensures [C16] applied: isFun(car) && len(cdr) == len(fun(car).Arguments) && accepts(car, cdr, len(cdr)) ==>
          nev == 1 && evis(0, "Eval") && evrecv(0, "Eval") == any(e) && evarg(0, "Eval", 0) == fun(car).Body && evarg(0, "Eval", 2) == mode
          && evenv(0, "Eval", 1, "Parent") == fun(car).Clojure && r == evres(0) && err == everr(0)
  ensures [C16] parameters: isFun(car) && nev == 1 ==> forall i in 0..len(cdr): evenvhas(0, "Eval", 1, fun(car).Arguments[i].Name)
          && (lastNamed(car, i) ==> evenvval(0, "Eval", 1, fun(car).Arguments[i].Name) == cdr[i])
  ensures [C16] onlyparameters: isFun(car) && nev == 1 ==> forall s string: evenvhas(0, "Eval", 1, s) ==> exists i in 0..len(cdr): fun(car).Arguments[i].Name == s
  inv count: nev == 0
  inv accepts: accepts(car, cdr, $k)
  inv bound: forall i in 0..$k: mhas(?p.Vars, fun(car).Arguments[i].Name)
  inv values: forall i in 0..$k: (forall j in i+1..$k: fun(car).Arguments[j].Name != fun(car).Arguments[i].Name) ==> ?p.Vars[fun(car).Arguments[i].Name] == cdr[i]
  inv only: forall s string: mhas(?p.Vars, s) ==> exists i in 0..$k: fun(car).Arguments[i].Name == s
}
