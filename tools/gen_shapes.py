#!/usr/bin/env python3
"""Writes h/shapes.inc: a catalogue of expression shapes.  The same text is compiled for the library's
types and for the reference arithmetic.  Deterministic; the output is committed.
a,b,c: operands (any may alias each other or the target), k: plain scalar of the base type in [-2,2]."""
import random, os
R = random.Random(20240607)
UN = ["sin(%s)", "cos(%s)", "tanh(%s)", "atan(%s)", "exp(0.3*sin(%s))", "sqrt(%s*%s+0.5)", "log(%s*%s+1.5)",
      "erf(%s)", "erfc(%s)", "cbrt(%s*%s+1)", "expm1(sin(%s))", "log1p(%s*%s)", "log2(%s*%s+2)", "log10(%s*%s+3)",
      "asinh(%s)", "acosh(%s*%s+1.5)", "atanh(0.5*sin(%s))", "asin(0.6*sin(%s))", "acos(0.6*cos(%s))",
      "tan(0.5*sin(%s))", "sinh(sin(%s))", "cosh(sin(%s))", "exp2(cos(%s))", "fabs(%s)", "abs(%s)",
      "smooth_abs(%s, K(0.5))", "radians(%s)", "(-%s)", "(+%s)", "pow(%s, 2)", "pow(%s*0.5, 3)", "pow(%s*%s+0.5, K(1.3))",
      "pow(%s*%s+0.5, -1)", "(%s*k)", "(k*%s)", "(%s+k)", "(k+%s)", "(%s-k)", "(k-%s)", "(%s/K(1.7))", "(%s/3)", "(2*%s)", "(1-%s)",
      "(k/(%s*%s+1.5))", "(1/(%s*%s+1.5))", "max(%s, k)", "min(k, %s)", "fmax(%s, k)", "fmin(%s, k)",
      "pow(K(1.4), sin(%s))", "hypot(%s, K(1.1))", "atan2(%s, K(1.3))", "degrees(0.02*sin(%s))"]
BI = ["(%s+%s)", "(%s-%s)", "(%s*%s)", "(%s/(2+cos(%s)))", "max(%s,%s)", "min(%s,%s)", "fmax(%s,%s)", "fmin(%s,%s)",
      "pow(1.5+sin(%s), cos(%s))", "hypot(%s, 1+cos(%s)*0.5)", "atan2(%s, 1.5+sin(%s))", "smooth_max(%s,%s,K(0.4))", "smooth_min(%s,%s,K(0.4))"]
def lit(s):
    # floating literals take the base type, so the float instantiation stays in float
    import re
    s = re.sub(r"K\((\d+(?:\.\d+)?)\)", r"<\1>", s)
    s = re.sub(r"(?<![\w.<])(\d+\.\d+)(?![\d>])", r"K(\1)", s)
    return re.sub(r"<([\d.]+)>", r"K(\1)", s)
def expr(d):
    if d == 0: return R.choice("aaabbbc")
    if R.random() < 0.5:
        f = R.choice(UN); n = f.count("%s")
        # repeated placeholders are the same sub-expression (keeps the domain safe)
        s = expr(d-1)
        if n == 2 and d > 2: s = R.choice("abc")
        return f % ((s,)*n)
    f = R.choice(BI)
    return f % (expr(d-1), expr(R.randint(0, d-1)))
shapes = ["a", "a*b", "a+b", "a-b", "-a", "a*a", "a*b+c", "(a+b)*(b-c)", "k*a", "a/(K(2)+b*b)", "a*b*c", "a+b+c", "a-b-c", "a*k+b",
          "sin(a)*cos(b)", "exp(K(0.3)*sin(a))+b", "sqrt(a*a+b*b+K(0.5))", "a*a*a", "(a+a)*(a-b)", "max(a,b)", "min(a,b)*c", "pow(a*a+K(0.5), K(1.3))",
          "(a*b+c)/(K(1.5)+sin(a)*sin(b))", "((a+b)*(a-b)+c*c)/(a*a+b*b+c*c+1)"]
# one shape per catalogue entry, so that each function occurs
for f in UN:
    n = f.count("%s"); v = R.choice(["a", "a", "b"])
    if n == 1 and R.random() < 0.5: v = R.choice(["(a*b)", "sin(a+b)", "(a-K(0.25)*c)"])
    shapes.append((f % ((v,)*n)) + R.choice(["", "+b", "*c", "-a"]))
for f in BI:
    shapes.append(f % (R.choice(["a", "(a*c)"]), R.choice(["b", "a", "sin(b)"])))
while len(shapes) < 110:
    e = expr(3)
    if len(e) < 170 and e.count("(") < 22: shapes.append(e)
# long ones: many operands in one statement, and deep chains of functions
shapes.append("+".join("%s*%s" % ("abc"[i % 3], "bcaac"[i % 5]) if i % 4 else "%s" % "abc"[i % 3] for i in range(1, 27)) + "-k")
shapes.append("sin(cos(sin(cos(sin(cos(0.3*sin(cos(sin(cos(sin(cos(sin(a+b)*c)-a))))+b)))-c))))*a+b")
shapes.append("-".join("(%s%s0.5)" % ("abc"[(i * 7) % 3], "*/"[i % 2]) for i in range(22)))
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "h", "shapes.inc")
with open(out, "w") as f:
    f.write("// generated by tools/gen_shapes.py\n#define N_SHAPES %d\n" % len(shapes))
    for i, s in enumerate(shapes):
        s = lit(s)
        if s.strip() == "a": pass
        f.write("SHAPE(%d, %s)\n" % (i, s))
print(len(shapes))
