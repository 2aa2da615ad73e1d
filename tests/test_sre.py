"""Differential test of sx.sre against the standard library on concrete text."""
import sys, re, random
sys.path.insert(0, __file__.rsplit("/", 2)[0])
from sx import core, sre
core.set_ctx(core.Ctx(max_steps=1 << 60))
pats=[r"(?P<option>.*?)\s*(?:(?P<vi>[=|:])\s*(?P<value>.*))?$", r"\[(?P<header>.+)\]", r"(?:\s*?#.*\n*)*([^#^\n]*)", r"([^#^\s]*)(?:\s*#.*)?", r"^[\w\-]+$", r"\s+\n", r"(a*)*b", r"(a|ab)(c|bcd)(d*)", r"\$(\w+|\{[^}]*\})", r"x*", r"(?i)AbC", r"(\w)\1", r"\bfoo\b", r"a(?=b)", r"(?<!a)b", r"(a)?(?(1)b|c)",r"a{2,3}?",r"[^\w]", r"%\(([^)]+)\)s"]
rng=random.Random(1); n=0
for p in pats:
    for _ in range(3000):
        s="".join(rng.choice("ab#= :[]\n_-^xc$d{}%()sfo ABC") for _ in range(rng.randint(0,8)))
        sp=sre.SPattern(p)
        for f in ("match","search","fullmatch"):
            a=getattr(re.compile(p),f)(s); b=getattr(sp,f)(s)
            assert (a is None)==(b is None),(p,s,f)
            if a: assert a.span()==b.span() and a.groups()==b.groups(),(p,s,f,a,b.span(),b.groups(),a.groups())
        assert re.findall(p,s)==sp.findall(s),(p,s,re.findall(p,s),sp.findall(s))
        assert re.split(p,s)==sp.split(s),(p,s)
        assert re.sub(p,"<>",s)==sp.sub("<>",s),(p,s); n+=1
print("ok",n)
