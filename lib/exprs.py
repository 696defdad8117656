"""Expression trees: printed as schema text with as few parentheses as C needs (or with all), and as C for the oracle."""
PREC = {"||": 1, "&&": 2, "|": 3, "^": 4, "&": 5, "==": 6, "!=": 6, "<": 7, ">": 7, "<=": 7, ">=": 7, "<<": 8, ">>": 8, "+": 9, "-": 9, "*": 10, "/": 10, "%": 10}
OPS = list(PREC)
HELP = """#include <stdint.h>
/* kept as separate functions so that the compiler does not rearrange the oracle's arithmetic */
#define XN __attribute__((noinline)) static uint64_t
XN x_shl(uint64_t a, uint64_t b) { return b < 64 ? a << b : 0; }
XN x_shr(uint64_t a, uint64_t b) { return b < 64 ? a >> b : 0; }
XN x_neg(uint64_t a) { return 0 - a; }
XN x_not(uint64_t a) { return ~a; }
XN x_lnot(uint64_t a) { return !a; }
XN x_add(uint64_t a, uint64_t b) { return a + b; }
XN x_sub(uint64_t a, uint64_t b) { return a - b; }
XN x_mul(uint64_t a, uint64_t b) { return a * b; }
XN x_div(uint64_t a, uint64_t b) { return a / b; }
XN x_mod(uint64_t a, uint64_t b) { return a % b; }
XN x_and(uint64_t a, uint64_t b) { return a & b; }
XN x_or(uint64_t a, uint64_t b) { return a | b; }
XN x_xor(uint64_t a, uint64_t b) { return a ^ b; }
XN x_eq(uint64_t a, uint64_t b) { return a == b; }
XN x_ne(uint64_t a, uint64_t b) { return a != b; }
XN x_lt(uint64_t a, uint64_t b) { return a < b; }
XN x_gt(uint64_t a, uint64_t b) { return a > b; }
XN x_le(uint64_t a, uint64_t b) { return a <= b; }
XN x_ge(uint64_t a, uint64_t b) { return a >= b; }
static double x_fdiv(double a, double b) { return a / b; }
static double x_i2f(uint64_t a) { return (double)(int64_t)a; }
"""


class X:
    def __init__(self, kind, *a, fl=False):
        self.k, self.a, self.fl = kind, a, fl

    def depth(self):
        if self.k == "bin":
            return max(self.a[1].depth(), self.a[2].depth() + 1)
        return max([y.depth() for y in self.a if isinstance(y, X)] or [1])

    def __repr__(self):
        return self.s()

    def s(self, full=False, sp=" "):
        return self._s(full, sp)[0]

    def _s(self, full, sp):
        """text, precedence"""
        k, a = self.k, self.a
        if k == "leaf":
            return a[0], 12
        if k == "un":
            t, p = a[1]._s(full, sp)
            if p < 11:
                t = "(" + t + ")"
            if a[0] == "-" and t[0] in "-0123456789":
                t = " " + t
            return a[0] + t, 11
        if k == "fn":
            return "%s(%s)" % (a[0], ", ".join(x.s(full, sp) for x in a[1:])), 12
        op, l, r = a
        p = PREC[op]
        lt, lp = l._s(full, sp)
        rt, rp = r._s(full, sp)
        if lp < p or (full and lp < 12):
            lt = "(" + lt + ")"
        if rp <= p or (full and rp < 12):
            rt = "(" + rt + ")"
        return lt + sp + op + sp + rt, p

    def c(self):
        k, a = self.k, self.a
        if k == "leaf":
            return a[1]
        if k == "un":
            x = a[1].c()
            if a[1].fl:
                return "(-(%s))" % x if a[0] == "-" else "((uint64_t)!(DB(%s)))" % x
            return {"-": "x_neg(%s)", "~": "x_not(%s)", "!": "x_lnot(%s)"}[a[0]] % x
        if k == "fn":
            f, xs = a[0], [y.c() if y.fl or a[0] == "float" else "x_i2f(%s)" % y.c() for y in a[1:]]
            if f == "float":
                return xs[0] if a[1].fl else "x_i2f(%s)" % a[1].c()
            if f == "int":
                return "((uint64_t)o_d2i(%s))" % xs[0] if a[1].fl else a[1].c()
            return "%s(%s)" % ({"abs": "fabs"}.get(f, f), ", ".join(xs))
        op, l, r = a
        lc, rc = l.c(), r.c()
        if op in ("&&", "||"):
            b = lambda x, y: "(DB(%s) != 0)" % y if x.fl else "((%s) != 0)" % y
            return "((uint64_t)(int)((int)%s %s (int)%s))" % (b(l, lc), {"&&": "&", "||": "|"}[op], b(r, rc))
        if l.fl or r.fl:
            lc = lc if l.fl else "x_i2f(%s)" % lc
            rc = rc if r.fl else "x_i2f(%s)" % rc
            if op == "/":
                return "x_fdiv(%s, %s)" % (lc, rc)
            return ("(%s %s %s)" if op in "+-*" else "((uint64_t)(%s %s %s))") % (lc, op, rc)
        return "x_%s(%s, %s)" % ({'+': 'add', '-': 'sub', '*': 'mul', '/': 'div', '%': 'mod', '&': 'and', '|': 'or', '^': 'xor', '==': 'eq', '!=': 'ne', '<': 'lt', '>': 'gt', '<=': 'le', '>=': 'ge', '<<': 'shl', '>>': 'shr'}[op], lc, rc)

    def err(self):
        k, a = self.k, self.a
        r = []
        for y in a:
            if isinstance(y, X):
                r += y.err()
        if k == "bin" and a[0] in ("/", "%"):
            d = a[2].c() if not (a[1].fl and not a[2].fl) else "x_i2f(%s)" % a[2].c()
            r.append("((%s) == 0)" % d)
        if k == "fn" and a[0] in ("sqrt", "log"):
            d = a[1].c() if a[1].fl else "x_i2f(%s)" % a[1].c()
            r.append("((%s) %s 0)" % (d, "<" if a[0] == "sqrt" else "<="))
        return r


def V(n):
    return X("leaf", n, "$Pv_" + n.replace(".", "_"))


def L(n, text=None):
    return X("leaf", text or str(n), "%dull" % (n & (2 ** 64 - 1)))


def FLt(t):
    return X("leaf", t, t, fl=True)


def B(op, l, r):
    return X("bin", op, l, r, fl=(l.fl or r.fl) and op in "+-*/")


def U(op, x):
    return X("un", op, x, fl=x.fl and op == "-")


def F(f, *xs):
    return X("fn", f, *xs, fl=f != "int")
