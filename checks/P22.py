"""P22: ill-typed and ill-scoped programs are rejected."""
import os, random, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.core import main, pmap
from vlib.accept import pair, Wrap, FLAGS, PRAGMA
from vlib.case import guarded, make_case, PROFILES

DEFS = """function f1(a) { return a + 1; }
function f2(a, b) { return a * b; }
function f0() { return 7; }
function fa(v) { return v[0] + v[1]; }
function mk(a) { var r[2]; r[0] = a; r[1] = a; return r; }
bus B() { signal x; signal y[2]; }
bus B2(n) { signal z[n]; B() b; }
template Id() { signal input in; signal output out; out <== in; }
template P2(k, l) { signal input a; signal input b[k]; signal output o; signal output p[k]; signal hid; hid <== a; o <== a + l; p <== b; }
template TB() { B() input bi; B() output bo; bo <== bi; }
"""
DECLS = """  signal input x; signal input y; signal input a[2]; signal input m[2][3];
  B() input ib;
  signal s; signal t[2]; signal u[2][3];
  var v = 1; var w[2] = [1, 2]; var z[2][3];
  component c = Id(); c.in <== x;
  component d[2]; for (var i = 0; i < 2; i++) { d[i] = Id(); d[i].in <== y; }
  B() b; b <== ib; B() e; B() ba[2]; ba[0] <== ib; ba[1] <== ib;
"""
# (class, allowed, mistaken); '@' expressions are filled with values
T = [
    # names
    ("undeclared name", "v = v + 1;", "v = nope + 1;"), ("undeclared name", "v = 1;", "nope = 1;"), ("undeclared name", "s <== x;", "s <== nope;"), ("undeclared name", "s <== x;", "nope <== x;"),
    ("undeclared name", "v = w[v];", "v = w[nope];"), ("undeclared name", "if (v == 1) { v = 2; }", "if (nope == 1) { v = 2; }"), ("undeclared name", "while (v < 1) { v++; }", "while (nope < 1) { v++; }"), ("undeclared name", "log(v);", "log(nope);"),
    ("undeclared name", "assert(v == 1);", "assert(nope == 1);"), ("undeclared name", "v = f1(v);", "v = f1(nope);"), ("undeclared name", "v = v ? 1 : 2;", "v = v ? 1 : nope;"), ("undeclared name", "x === x;", "x === nope;"), ("undeclared name", "w = [1, v];", "w = [1, nope];"),
    ("undeclared name", "var q[2];", "var q[nope];"), ("undeclared name", "signal q[2];", "signal q[nope];"), ("undeclared name", "w[0] = 1;", "w[nope] = 1;"), ("undeclared name", "v += 1;", "nope += 1;"), ("undeclared name", "v++;", "nope++;"), ("undeclared name", "v = -v;", "v = -nope;"),
    ("undeclared function", "v = f1(1);", "v = nope(1);"), ("undeclared template", "component q = Id(); q.in <== x;", "component q = Nope(); q.in <== x;"), ("undeclared template", "s <== Id()(x);", "s <== Nope()(x);"), ("undeclared bus", "B() q;", "Nope() q;"),
    ("undeclared signal of a component", "s <== c.out;", "s <== c.nope;"), ("undeclared signal of a component", "component q = Id(); q.in <== x;", "component q = Id(); q.in <== x; q.nope <== x;"), ("undeclared field", "s <== b.x;", "s <== b.nope;"), ("undeclared field", "e.x <== x;", "e.nope <== x;"),
    ("undeclared field", "s <== b.y[0];", "s <== b.y.x;"), ("intermediate of a component", "component q = P2(2, 1); q.a <== x; q.b <== a; s <== q.o;", "component q = P2(2, 1); q.a <== x; q.b <== a; s <== q.hid;"),
    ("name used before its declaration", "var q = 1; v = q;", "v = q; var q = 1;"), ("name of an inner block", "var q = 1; { q = 2; } v = q;", "{ var q = 1; } v = q;"), ("name of an inner block", "var q; if (v == 1) { q = 1; } v = q;", "if (v == 1) { var q = 1; } v = q;"),
    ("name of a loop", "var q; for (q = 0; q < 2; q++) { } v = q;", "for (var q = 0; q < 2; q++) { } v = q;"), ("name of a loop body", "var q; while (v < 1) { q = 1; v = 2; } v = q;", "while (v < 1) { var q = 1; v = 2; } v = q;"), ("name of another branch", "if (v == 1) { var q = 1; v = q; } else { v = 2; }", "if (v == 1) { var q = 1; } else { v = q; }"),
    ("parameter of another template", "v = N;", "v = k;"), ("local of a function", "v = 1;", "v = r[0];"),
    # declared twice
    ("declared twice", "var q = 1; { var q = 2; }", "var q = 1; var q = 2;"), ("declared twice", "signal q; signal q2;", "signal q; signal q;"), ("declared twice", "signal q; var q2;", "signal q; var q;"), ("declared twice", "var q; signal q2;", "var q; signal q;"),
    ("declared twice", "component q; var q2;", "component q; var q;"), ("declared twice", "component q; signal q2;", "signal q; component q;"), ("declared twice", "B() q; B() q2;", "B() q; B() q;"), ("declared twice", "B() q; signal q2;", "B() q; signal q;"), ("declared twice", "B() q; var q2;", "var q; B() q;"),
    ("declared twice", "var q;", "var x;"), ("declared twice", "signal q;", "signal x;"), ("declared twice", "component q;", "component b;"), ("declared twice", "signal q;", "signal N;"), ("declared twice", "component q;", "component N;"), ("declared twice", "B() q;", "B() N;"),
    ("declared twice", "var q, q2;", "var q, q;"), ("declared twice", "signal q, q2;", "signal q, q;"), ("declared twice", "var (q, q2) = (1, 2);", "var (q, q) = (1, 2);"), ("wire hidden by a wire of a block", "signal q; if (v == 1) { signal q2; }", "signal q; if (v == 1) { signal q; }"), ("wire hidden by a wire of a block", "component q2; { B() q; }", "component q2; { B() q2; }"),
    # arity
    ("number of arguments", "v = f1(1);", "v = f1();"), ("number of arguments", "v = f1(1);", "v = f1(1, 2);"), ("number of arguments", "v = f2(1, 2);", "v = f2(1);"), ("number of arguments", "v = f0();", "v = f0(1);"), ("number of arguments", "component q = Id(); q.in <== x;", "component q = Id(1); q.in <== x;"),
    ("number of arguments", "component q = P2(2, 1); q.a <== x; q.b <== a;", "component q = P2(2); q.a <== x; q.b <== a;"), ("number of arguments", "component q = P2(2, 1); q.a <== x; q.b <== a;", "component q = P2(2, 1, 3); q.a <== x; q.b <== a;"), ("number of arguments", "B2(2) q;", "B2() q;"), ("number of arguments", "B2(2) q;", "B2(2, 3) q;"), ("number of arguments", "B() q;", "B(1) q;"),
    ("number of arguments", "s <== Id()(x);", "s <== Id(1)(x);"), ("number of inputs", "s <== Id()(x);", "s <== Id()();"), ("number of inputs", "s <== Id()(x);", "s <== Id()(x, y);"), ("number of inputs", "(s, _) <== P2(2, 1)(x, a);", "(s, _) <== P2(2, 1)(x);"), ("number of outputs", "(s, t) <== P2(2, 1)(x, a);", "s <== P2(2, 1)(x, a);"),
    ("number of outputs", "(s, _) <== P2(2, 1)(x, a);", "(s, _, _) <== P2(2, 1)(x, a);"), ("size of tuples", "(v, w[0]) = (1, 2);", "(v, w[0]) = (1, 2, 3);"), ("size of tuples", "(v, w[0]) = (1, 2);", "(v, w[0], w[1]) = (1, 2);"), ("named input that does not exist", "s <== Id()(in <== x);", "s <== Id()(nope <== x);"), ("named input given twice", "(s, _) <== P2(2, 1)(b <== a, a <== x);", "(s, _) <== P2(2, 1)(a <== x, a <== x);"),
    # kinds
    ("wrong assignment operator", "s <== 1;", "s = 1;"), ("wrong assignment operator", "v = 1;", "v <== 1;"), ("wrong assignment operator", "v = 1;", "v <-- 1;"), ("wrong assignment operator", "component q; q = Id(); q.in <== x;", "component q; q <== Id(); q.in <== x;"), ("wrong assignment operator", "s <-- 1;", "s += 1;"), ("wrong assignment operator", "s <-- 1;", "s++;"),
    ("wrong assignment operator", "e <== b;", "e = b;"), ("wrong assignment operator", "var q[2] = [1, 1];", "var q[2] <== [1, 1];"), ("wrong assignment operator", "signal q <== 1;", "signal q = 1;"), ("wrong assignment operator", "e.x <== 1;", "e.x = 1;"), ("wrong assignment operator", "component q = Id(); q.in <== 1;", "component q = Id(); q.in = 1;"), ("wrong assignment operator", "x ==> s;", "x ==> v;"),
    ("component as a value", "v = c.out;", "v = c;"), ("component as a value", "s <== c.out;", "s <== c;"), ("component as a value", "log(c.out);", "log(c);"), ("component as a value", "c.out === x;", "c === x;"), ("component as a value", "v = f1(c.out);", "v = f1(c);"), ("component as a value", "if (v == 1) { v = 2; }", "if (c) { v = 2; }"), ("component as a value", "v = 1 + c.out;", "v = 1 + c;"),
    ("component as a value", "v = w[0];", "v = w[c];"), ("bus as a value", "v = b.x;", "v = b;"), ("bus as a value", "s <== b.x + 1;", "s <== b + 1;"), ("bus as a value", "s <== b.x;", "s <== b;"), ("bus as a value", "assert(b.x == 1);", "assert(b == 1);"), ("bus as a value", "b.x === x;", "b === x;"), ("bus as a value", "v = -b.x;", "v = -b;"), ("bus as a value", "v = w[0];", "v = w[b];"),
    ("bus of another type", "e <== b;", "B2(2) q; q <== b;"), ("bus of another type", "B2(2) q; B2(2) q2; q2.z <== a; q2.b <== b; q <== q2;", "B2(2) q; B2(3) q2; q2.z <== m[0]; q2.b <== b; q <== q2;"), ("bus of another type", "component q = TB(); q.bi <== b;", "component q = TB(); q.bi <== x;"), ("bus of another type", "e <== b;", "e <== x;"), ("bus of another type", "e <== b;", "e <== ba;"),
    ("template as a function", "v = f1(1);", "v = Id();"), ("template as a function", "v = f1(1);", "v = 1 + Id();"), ("template as a function", "v = 1 + f1(2);", "v = 1 + P2(2, 1);"), ("function as a template", "component q = Id(); q.in <== x;", "component q = f0();"), ("function as a template", "s <== Id()(x);", "s <== f0()(x);"), ("bus as a template", "component q = Id(); q.in <== x;", "component q = B();"), ("bus as a function", "v = f0();", "v = B();"),
    ("template as a bus", "B() q;", "Id() q;"), ("function as a bus", "B() q;", "f0() q;"), ("template name as a value", "v = 1;", "v = Id;"), ("function name as a value", "v = 1;", "v = f0;"), ("components of different templates", "component q[2]; for (var i = 0; i < 2; i++) { q[i] = Id(); q[i].in <== x; }", "component q[2]; q[0] = Id(); q[0].in <== x; q[1] = TB(); q[1].bi <== b;"),
    ("field of a variable", "v = 1;", "v = v.x;"), ("index of a component that is no array", "s <== c.out;", "s <== c[0].out;"), ("component array without index", "s <== d[0].out;", "s <== d.out;"), ("index of a bus that is no array", "s <== b.x;", "s <== b[0].x;"), ("bus array without index", "s <== ba[0].x;", "s <== ba.x;"), ("return in a template", "v = 1;", "return 1;"), ("component array created at once", "component q[2]; q[0] = Id(); q[0].in <== x; q[1] = Id(); q[1].in <== x;", "component q[2]; q = Id();"),
    ("assignment to a function call", "v = 1;", "f1(1) = 1;"), ("assignment to a number", "v = 1;", "1 = v;"),
    # dimensions
    ("dimensions", "w = [1, 2];", "w = 1;"), ("dimensions", "w = [1, 2];", "w = [[1, 2], [3, 4]];"), ("dimensions", "v = w[0];", "v = w;"), ("dimensions", "v = w[0];", "v = w[0][0];"), ("dimensions", "v = 1;", "v = v[0];"), ("dimensions", "v = w[0] + 1;", "v = w + 1;"), ("dimensions", "v = z[0][1];", "v = z[0];"), ("dimensions", "w[0] = 1;", "w[0] = [1, 2];"),
    ("dimensions", "t <== a;", "t <== x;"), ("dimensions", "s <== a[0];", "s <== a;"), ("dimensions", "t <== [x, y];", "t <== [x, y, x];"), ("dimensions", "u <== m;", "u <== a;"), ("dimensions", "u[0] <== m[1];", "u[0] <== a;"), ("dimensions", "a === [x, y];", "a === x;"), ("dimensions", "a === [1, 2];", "a === [1, 2, 3];"), ("dimensions", "m[0] === m[1];", "m[0] === a;"), ("dimensions", "m === m;", "m === a;"),
    ("dimensions", "if (w[0] == 1) { }", "if (w) { }"), ("dimensions", "if (w[0] == 1) { }", "if (w == 1) { }"), ("dimensions", "while (w[0] == 5) { w[0] = 5; }", "while (w) { v = 0; }"), ("dimensions", "v = w[w[0]];", "v = w[w];"), ("dimensions", "assert(w[0]);", "assert(w);"), ("dimensions", "v = v ? 1 : 2;", "v = v ? w : 2;"), ("dimensions", "w = v ? [1, 2] : [3, 4];", "w = v ? [1, 2] : 3;"),
    ("dimensions", "v = w[0] ? 1 : 2;", "v = w ? 1 : 2;"), ("dimensions", "v = -w[0];", "v = -w;"), ("dimensions", "v = !w[0];", "v = !w;"), ("dimensions", "var q[2] = w;", "var q = w;"), ("dimensions", "var q = v;", "var q[2] = v;"),
    ("dimensions", "var q[2] = mk(1);", "var q = mk(1);"), ("dimensions", "v = fa(w);", "v = fa(1);"), ("dimensions", "component q = P2(2, 1); q.a <== x; q.b <== a;", "component q = P2(2, 1); q.a <== x; q.b <== x;"), ("dimensions", "component q = P2(2, 1); q.a <== x; q.b <== a;", "component q = P2(3, 1); q.a <== x; q.b <== a;"), ("dimensions", "component q = Id(); q.in <== x;", "component q = Id(); q.in <== a;"),
    ("dimensions", "component q = P2(2, 1); q.a <== x; q.b <== a;", "component q = P2(2, 1); q.a <== x; q.b[0][0] <== 1;"), ("dimensions", "s <== Id()(x);", "s <== Id()(a);"), ("dimensions", "e.y <== a;", "e.y <== x;"), ("dimensions", "e.y[0] <== x;", "e.y[0] <== a;"), ("dimensions", "s <== b.y[0];", "s <== b.y;"), ("dimensions", "v += w[0];", "v += w;"), ("dimensions", "w[0] += 1;", "w += 1;"), ("dimensions", "w[1]++;", "w++;"), ("dimensions", "var q[w[0]];", "var q[w];"),
    ("dimensions", "signal q[2] <== a;", "signal q[2] <== x;"), ("dimensions", "signal q <== x;", "signal q <== a;"), ("dimensions", "B() q[2] <== ba;", "B() q[2] <== b;"), ("dimensions", "B() q <== b;", "B() q <== ba;"), ("dimensions", "v = w[0] * 2;", "v = w * w;"), ("dimensions", "v = f2(w[0], 1);", "v = f2(w, 1);"), ("dimensions", "component q = P2(2, 1); q.a <== x; q.b <== a;", "component q = P2(w, 1); q.a <== x; q.b <== a;"),
]
# bodies of a function fn(p, q): (class, allowed, mistaken)
FN = [
    ("no return", "return p;", "p = q;"), ("return in one branch only", "if (p == 1) { return p; } else { return q; }", "if (p == 1) { return p; }"), ("return in one branch only", "if (p == 1) { return p; } else { return q; }", "if (p == 1) { return p; } else { p = 2; }"), ("return in one branch only", "if (p == 1) { if (q == 1) { return 1; } else { return 2; } } else { return q; }", "if (p == 1) { if (q == 1) { return 1; } } else { return q; }"),
    ("return in a loop only", "while (p < 1) { return p; } return q;", "while (p < 1) { return p; }"), ("return in a loop only", "for (var i = 0; i < 2; i++) { if (i == 1) { return p; } } return q;", "for (var i = 0; i < 2; i++) { return p; }"), ("signal in a function", "var s; return p;", "signal s; return p;"), ("signal in a function", "var s = p; return p;", "signal input s; return p;"), ("component in a function", "var c; return p;", "component c; return p;"),
    ("component in a function", "var c = f1(1); return c;", "component c = Id(); return p;"), ("constraint in a function", "assert(p == p); return p;", "p === q; return p;"), ("constraint in a function", "p = q; return p;", "p <== q; return p;"), ("constraint in a function", "p = q; return p;", "p <-- q; return p;"), ("bus in a function", "var b; return p;", "B() b; return p;"), ("anonymous component in a function", "return f1(p);", "return Id()(p);"),
    ("template in a function", "return f1(p);", "return Id();"), ("undeclared name", "return p + q;", "return p + nope;"), ("signal of a template in a function", "return p;", "return x;"), ("parameter of a template in a function", "return p;", "return N;"), ("declared twice", "var r = p; return r;", "var p = 1; return p;"), ("declared twice", "var r; var r2; return p;", "var r; var r; return p;"), ("number of arguments", "return f1(p);", "return f1(p, q);"),
    ("number of arguments", "if (p == 0) { return 0; } else { return fn(p - 1, q); }", "if (p == 0) { return 0; } else { return fn(p - 1); }"), ("dimensions", "var r[2]; r[0] = p; return r[0];", "var r[2]; r = p; return p;"), ("dimensions", "var r[2] = [p, q]; return r[1];", "var r[2] = [p, q]; return r[1][0];"), ("different returns", "if (p == 1) { return 2; } else { return 1; }", "var r[2]; if (p == 1) { return r; } else { return 1; }"),
    ("name of an inner block", "var r; { r = 1; } return r;", "{ var r = 1; } return r;"), ("name of a loop", "var i; for (i = 0; i < 2; i++) { } return i;", "for (var i = 0; i < 2; i++) { } return i;"), ("undeclared function", "return f0();", "return nope();"), ("tuple in a function", "return p;", "return (p, q);"),
]
# whole programs: (class, allowed definitions and main, mistaken)
W = [
    ("template defined twice", "template A() { signal input q; } template C() { signal input q; } component main = A();", "template A() { signal input q; } template A() { signal input q; } component main = A();"), ("function defined twice", "function g() { return 1; } function h() { return 2; } template A() { signal input q; var v = g(); } component main = A();", "function g() { return 1; } function g() { return 2; } template A() { signal input q; var v = g(); } component main = A();"),
    ("function and template of one name", "function g() { return 1; } template A() { signal input q; } component main = A();", "function A() { return 1; } template A() { signal input q; } component main = A();"), ("bus and template of one name", "bus G() { signal z; } template A() { signal input q; } component main = A();", "bus A() { signal z; } template A() { signal input q; } component main = A();"), ("bus and function of one name", "bus G() { signal z; } function g() { return 1; } template A() { signal input q; } component main = A();", "bus g() { signal z; } function g() { return 1; } template A() { signal input q; } component main = A();"),
    ("bus defined twice", "bus G() { signal z; } bus H() { signal z; } template A() { G() input q; } component main = A();", "bus G() { signal z; } bus G() { signal z; } template A() { G() input q; } component main = A();"), ("parameters of one name", "template A(a, b) { signal input q; } component main = A(1, 2);", "template A(a, a) { signal input q; } component main = A(1, 2);"), ("parameters of one name", "function g(a, b) { return 1; } template A() { signal input q; var v = g(1, 2); } component main = A();", "function g(a, a) { return 1; } template A() { signal input q; var v = g(1, 2); } component main = A();"),
    ("fields of one name", "bus G() { signal z; signal y; } template A() { G() input q; } component main = A();", "bus G() { signal z; signal z; } template A() { G() input q; } component main = A();"), ("main is a function", "function g() { return 1; } template A() { signal input q; } component main = A();", "function g() { return 1; } template A() { signal input q; } component main = g();"), ("main does not exist", "template A() { signal input q; } component main = A();", "template A() { signal input q; } component main = Nope();"), ("main is a bus", "bus G() { signal z; } template A() { signal input q; } component main = A();", "bus G() { signal z; } template A() { signal input q; } component main = G();"),
    ("arguments of main", "template A(a) { signal input q; } component main = A(1);", "template A(a) { signal input q; } component main = A();"), ("arguments of main", "template A(a) { signal input q; } component main = A(1);", "template A(a) { signal input q; } component main = A(1, 2);"), ("public name that is no input", "template A() { signal input q; signal output o; o <== q; } component main {public [q]} = A();", "template A() { signal input q; signal output o; o <== q; } component main {public [o]} = A();"), ("public name that is no input", "template A() { signal input q; signal w; w <== q; } component main {public [q]} = A();", "template A() { signal input q; signal w; w <== q; } component main {public [w]} = A();"),
    ("public name that does not exist", "template A() { signal input q; } component main {public [q]} = A();", "template A() { signal input q; } component main {public [nope]} = A();"), ("main twice", "template A() { signal input q; } component main = A();", "template A() { signal input q; } component main = A(); component main = A();"), ("no main", "template A() { signal input q; } component main = A();", "template A() { signal input q; }"), ("bus field that is no wire", "bus G() { signal z; } template A() { G() input q; } component main = A();", "bus G() { var z; } template A() { G() input q; } component main = A();"),
    ("bus that contains itself", "bus G() { signal z; } bus H() { G() g; } template A() { H() input q; } component main = A();", "bus G() { signal z; G() g; } template A() { G() input q; } component main = A();"), ("buses that contain each other", "bus G() { signal z; } bus H() { G() g; } template A() { H() input q; } component main = A();", "bus G() { H() h; } bus H() { G() g; } template A() { H() input q; } component main = A();"), ("component in a bus", "bus G() { signal z; } template I() { signal input in; } template A() { G() input q; } component main = A();", "bus G() { signal z; component c = I(); } template I() { signal input in; } template A() { G() input q; } component main = A();"),
    ("input in a bus", "bus G() { signal z; } template A() { G() input q; } component main = A();", "bus G() { signal input z; } template A() { G() input q; } component main = A();"), ("constraint in a bus", "bus G() { signal z; } template A() { G() input q; } component main = A();", "bus G() { signal z; z === 1; } template A() { G() input q; } component main = A();"), ("unknown name in a bus", "bus G(n) { signal z[n]; } template A() { G(2) input q; } component main = A();", "bus G(n) { signal z[k]; } template A() { G(2) input q; } component main = A();"),
    ("signal in a loop", "template A(n) { signal input q; signal w[2]; for (var i = 0; i < 2; i++) { w[i] <== q; } } component main = A(1);", "template A(n) { signal input q; for (var i = 0; i < 2; i++) { signal w; } } component main = A(1);"), ("component in a loop", "template I() { signal input in; } template A(n) { signal input q; component w[2]; for (var i = 0; i < 2; i++) { w[i] = I(); w[i].in <== q; } } component main = A(1);", "template I() { signal input in; } template A(n) { signal input q; while (n < 2) { component w; n++; } } component main = A(1);"),
    ("signal initialised in its own expression", "template A() { signal input q; signal w <== q; } component main = A();", "template A() { signal input q; signal w <== w; } component main = A();"), ("reserved word as a name", "template A() { signal input q; var vv; } component main = A();", "template A() { signal input q; var signal; } component main = A();"), ("name starting with a digit", "template A() { signal input q; var v1; } component main = A();", "template A() { signal input q; var 1v; } component main = A();"),
]


def rename(r, t, w):
    """the local names q, q2 become something else"""
    for n in ("q2", "q"): t = re.sub(r"\b%s\b" % n, n + "_loc", t)
    return t


KW = set("var signal input output component template function bus if else for while return log assert parallel main public pragma circom custom".split())


def plant(r, text):
    """one mistake somewhere in the reachable part of a generated program (all its names are distinct)"""
    parts = re.split(r"(?m)^(?=template |function |bus |component )", text)
    heads = {}
    for i, p in enumerate(parts):
        m = re.match(r"(template|function|bus)(?: custom| parallel)* (\w+)\(", p)
        if m: heads[m.group(2)] = (i, m.group(1))
    reach, todo = set(), re.findall(r"\w+", parts[-1])
    while todo:
        n = todo.pop()
        if n in heads and n not in reach:
            reach.add(n)
            todo += re.findall(r"\w+", parts[heads[n][0]])
    cand = [(n, heads[n]) for n in sorted(reach) if heads[n][1] != "bus"]
    for _ in range(30):
        n, (i, what) = r.choice(cand)
        lines = parts[i].split("\n")
        kind = r.choice(["undeclared", "twice", "arity", "operator", "removed", "return"])
        j = r.randrange(1, len(lines))
        l = lines[j]
        if '"' in l: continue
        new, cls = None, None
        if kind == "undeclared":
            ms = [m for m in re.finditer(r"(?<![.\w])([a-zA-Z_]\w*)", l) if m.group(1) not in KW and m.group(1) not in heads]
            ms = [m for m in ms if not re.search(r"\b(var|input|output|signal|component)\s*(\{[^}]*\})?\s*$", l[:m.start()]) and not re.match(r" *(%s)\(.*\) *(input|output)? *\w+(\[.*\])*;" % "|".join(heads), l)]
            if ms:
                m = r.choice(ms)
                new, cls = l[:m.start()] + "nope" + l[m.end():], "undeclared name"
        elif kind == "twice" and re.match(r"\s*(var|signal|component) \w[^()]*;$", l) and " (" not in l:
            new, cls = l + re.match(r"\s*(?:var|signal(?: input| output)?|component) *\w+(\[[^=]*\])?", l).group(0) + ";", "declared twice"
        elif kind == "arity":
            ms = [m for m in re.finditer(r"\b(\w+)\(", l) if heads.get(m.group(1), (0, ""))[1] in ("function", "template", "bus")]
            if ms:
                m = r.choice(ms)
                rest = l[m.end():]
                new, cls = l[:m.end()] + ("0" if rest.startswith(")") else "0, ") + rest, "number of arguments"
        elif kind == "operator":
            if re.match(r"\s*(s|out)\d+(\[.*\])? <(==|--) ", l): new, cls = re.sub(r" <(==|--) ", " = ", l, count=1), "wrong assignment operator"
            elif re.match(r"\s*[vwlkq]\d+(\[.*\])? = ", l): new, cls = l.replace(" = ", r.choice([" <== ", " <-- "]), 1), "wrong assignment operator"
        elif kind == "removed":
            m = re.match(r"\s*(?:var|signal(?: input| output)?|component) *(?:\{.*?\} *)?(\w+)[^()]*;$", l)
            if m and any(re.search(r"(?<!\.)\b%s\b" % m.group(1), x) for x in lines[j + 1:]): new, cls = "", "declaration removed"
        elif kind == "return" and what == "function":
            js = [q for q in range(len(lines)) if lines[q].startswith("  return ")]
            if len(js) == 1: j, l, new, cls = js[0], lines[js[0]], "", "no return"
        if new is None: continue
        lines[j] = new
        return "".join(parts[:i] + ["\n".join(lines)] + parts[i + 1:]), cls, l.strip(), new.strip()
    return None


@guarded
def big(a, res):
    r = random.Random(a["seed"])
    c = make_case(r.randrange(1 << 40), "bn128", PROFILES[r.choice(sorted(PROFILES))], 0)
    if c is None: res.cnt("outside_model"); return
    fl = r.choice(FLAGS)
    if "goldilocks" in fl: fl = []
    m = plant(r, c.text)
    if m is None: return
    bad, cls, l, n = m
    if pair(res, a, "%s/%d" % (cls, a["seed"]), r, c.text, bad, "%s in a generated program (%s | %s)" % (cls, l[:150], n[:150]), flags=fl):
        res.seen((cls, l, n, " ".join(fl)), {"mistake": cls, "allowed": l[:120], "forbidden": n[:120]}); res.cnt("planted_in_generated_programs")


@guarded
def job(a, res):
    r = random.Random(a["seed"])
    w = Wrap(r)
    kind = a["k"] % 8
    fl = r.choice(FLAGS)
    if kind < 5:
        cls, g, b = T[a["n"] % len(T)]
        g, b = rename(r, g, w), rename(r, b, w)
        st = r.getstate()
        depth = r.choice([0, 0, 1, 1, 2])
        # a wire declared in a block is a wire of the template; variables only hide in blocks
        noloop = bool(re.search(r"\bsignal\b|\bcomponent\b|\bB2?\(|Nope\(\) q", g + b)) or "loop" in cls

        def make(s):
            r.setstate(st); w.n = 0; w.depth = depth
            body = w.nest(s) if not noloop else nest_plain(r, s, depth)
            return w.program(DEFS, DECLS.replace("  B() input ib;\n", "  B() ib; ib.x <== x; ib.y <== a;\n"), "  " + body + "\n", inputs=[("x", ""), ("y", ""), ("a", "[2]"), ("m", "[2][3]")])
        good, bad = make(g), make(b)
    elif kind < 7:
        cls, g, b = FN[a["n"] % len(FN)]
        st = r.getstate()

        def make(s):
            r.setstate(st); w.n = 0
            use = r.choice(["v = fn(1, 2);", "v = fn(0, 2) + 1;", "s <== fn(1, 1) * x;", "if (fn(1, 2) == 3) { v = 1; }", "assert(fn(1, 2) < 100);", "log(fn(1, 1));", "v = f1(fn(1, 2));", "v = outer(1);"])
            return w.program(DEFS + "function fn(p, q) { %s }\nfunction outer(a) { return fn(a, 1); }\n" % s, DECLS.replace("  B() input ib;\n", "  B() ib; ib.x <== x; ib.y <== a;\n"), "  " + use + "\n", inputs=[("x", ""), ("y", ""), ("a", "[2]"), ("m", "[2][3]")])
        good, bad = make(g), make(b)
    else:
        cls, g, b = W[a["n"] % len(W)]
        pre = r.choice(["", DEFS, "\n\n// c\n"])
        good, bad = PRAGMA + pre + g + "\n", PRAGMA + pre + b + "\n"
    key = "%s/%d" % (cls, a["seed"])
    if pair(res, a, key, r, good, bad, "%s (%s | %s)" % (cls, g[:150], b[:150]), flags=fl):
        res.seen((cls, g, b, " ".join(fl)), {"mistake": cls, "allowed": g[:120], "forbidden": b[:120]})


def nest_plain(r, s, depth):
    for _ in range(depth):
        s = r.choice(["if (N == 3) { %s }", "if (N < 0) { var q0 = 1; } else { %s }", "{ %s }"]) % s
    return s


def body(c):
    c.rule = "a pair of programs that differ in one mistake, the allowed one accepted and the other rejected"

    def items():
        ns = dict.fromkeys(range(8), 0)
        for k in range(40000 if c.quick else 400000):
            # every mistake comes up in turn, in other surroundings each time
            g = 0 if k % 8 < 5 else 1 if k % 8 < 7 else 2
            ns[g] += 1
            yield dict(seed=c.rng.randrange(1 << 40), dir=c.scratch + "/%d" % k, k=k, n=ns[g])
    c.absorb(pmap(job, items(), deadline=c.budget(28, 700)))
    c.absorb(pmap(big, (dict(seed=c.rng.randrange(1 << 40), dir=c.scratch + "/b%d" % k, k=k) for k in range(40000)), deadline=c.budget(48, 1200)))


if __name__ == "__main__":
    main("P22", body)
