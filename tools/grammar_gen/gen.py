"""Writes verus/grammar.tpl (a template like the others; this only saves typing). Not run by any check."""
import os
out=[]
RT={}
MAPP={}
def TG(t): return ' '.join('['+x.strip()+']' for x in t.split(','))
def T(s): out.append(s)
def G(name, typ, spec, *, tags="C20", pure=True, sub=(), contract=(), closure=(), extra="", args="", call="", proof="", asname=None, dropfn=None, broadcast="", cparams=None, use=""):
    n=asname or name
    RT[n]=typ
    MAPP[name]=[x.strip() for x in tags.split(',')]
    # args: e.g. "source_path: Option<&'s Path>"
    T(f"#[verifier::opaque] spec fn {n}_g<'s>(i: In<'s>, a: int, st: St) -> Res<{typ}> {{ {spec} }}")
    T(f"spec fn {n}_s<'s>() -> Sem<'s, {typ}> {{ |i: In<'s>, a: int, st: St| {n}_g(i, a, st) }}")
    T(f"@@fn src/parsers.rs {name}")
    T(f"@sig\nfn {n}<'s>({args}) -> (p: P<'s, {typ}>)")
    if pure: T("@pure")
    if dropfn: T(f"@dropfn {dropfn}")
    for a,b in contract: T(f"@contract {a}\n{b}")
    for a,b in closure: T(f"@closure {a}\n{b}")
    # an annotation which finds no place leaves the function undecided, rather than failing its proof
    for a,b in sub: T(f"@subst{'' if 'known_as' in b or 'noting' in b else '?'} {a} =>> {b}")
    if extra: T(extra)
    T(f"@spec\n    ensures p.sem() == {n}_s::<'s>(), // {TG(tags)}")
    T(f"@wrapend\n    proof {{ {("broadcast use {"+use+"}; ") if use else ""}reveal({n}_g); {broadcast}assert forall|i: In<'s>, a: int, st: St| #[trigger] r_.run(i, a, st) == {n}_g(i, a, st) by {{ {proof} }} same(r_, {n}_s()); }} // {TG(tags)}")
    T("@@end\n")
T(open(os.path.dirname(os.path.abspath(__file__))+'/head.tpl').read())
exec(open(os.path.dirname(os.path.abspath(__file__))+'/body.py').read())
T("}\nfn main() {}")
open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'../../verus/grammar.tpl'),'w').write("\n".join(out)+"\n")

import json
print(json.dumps({('^'+k+'$'):v for k,v in MAPP.items()}))
