// Executor for manipulations of compile-time expressions; the calls are in lib_ctm1.cpp ... lib_ctm8.cpp.
#include "lib_ctm.hpp"
#include "lib_point.hpp"
CtmCase const* ctm_slice[CTM_SLICES]; long ctm_size[CTM_SLICES];
void CtmText::put(char c) { if (p + 2 < end) { *p++ = c; *p++ = ' '; } else p = end; }
void CtmText::num(long v) { if (p + 24 < end) p += sprintf(p, "%ld ", v); else p = end; }
namespace {
P parse(const char*& s) {
  while (*s == ' ') ++s;
  char c = *s;
  if ((c == '+' || c == '-' || c == '*' || c == '/') && (s[1] == ' ')) {
    ++s; P a = parse(s); P b = a ? parse(s) : a; if (!a || !b) return P();
    return model::mk_bin(c == '+' ? model::B_PLUS : c == '-' ? model::B_MINUS : c == '*' ? model::B_MULT : model::B_DIV, a, b);
  }
  if (c >= 'w' && c <= 'z') { ++s; return model::mk_var(c == 'w' ? 5 : c - 'x'); }
  if (c == '-' || (c >= '0' && c <= '9')) { char* e; long v = strtol(s, &e, 10); s = e; return model::mk_const((double)v); }
  return P();
}
bool sum_below(P const& t, bool product) {
  if (!t || t->k != model::BIN) return false;
  if (product && (t->op == model::B_PLUS || t->op == model::B_MINUS)) return true;
  product = product || t->op == model::B_MULT;
  return sum_below(t->c[0], product) || sum_below(t->c[1], product);
}
}
// n0: case, n1: evaluate the result (0) or use it in the way of the case (1), n2: seed of the point
void x_CTM(OpCtx& o) {
  NEED(o.op.n[0] >= 0 && o.op.n[2] >= 0);
  int slice = (int)(o.op.n[0] % CTM_SLICES); NEED(ctm_size[slice] > 0);
  CtmCase const& k = ctm_slice[slice][o.op.n[0] / CTM_SLICES % ctm_size[slice]];
  const char* s = k.want; P want = parse(s); if (!want) sim::internal_error("case text");
  char buf[1 << 14]; CtmText t = {buf, buf + sizeof buf}; k.form(t); *t.p = 0; s = buf; P form = t.p == t.end ? P() : parse(s);
  o.operand(want);
  Point pt((uint64_t)o.op.n[2]); pt.env.strict = true;
  bool number = buf[0] == '?';      // evaluated at compile time
  CtmCall c; c.mode = (int)(o.op.n[1] & 1); c.point = pt.v; c.mem = 0; c.target = 0; c.value = 0;
  // the meaning of the type itself
  auto meaning = [&] {
    if (number || !form) return true;
    if (k.expanded && sum_below(form, false)) { bad_result(o, "not-expanded", "%s: a sum is left below a product: %s", k.text, show2(form).c_str()); return false; }
    std::string why; sim::stats().compared++;
    if (model::compare(want, form, (uint64_t)o.op.n[2] * 31 + 7, 3, &why) == 0) { bad_result(o, "wrong-value", "%s gives %s, which is not %s: %s", k.text, show2(form).c_str(), show2(want).c_str(), why.c_str()); return false; }
    return true;
  };
  bool handle = c.mode == 1 && !number && (k.use == CTM_CONVERT || k.use == CTM_ASSIGN);
  if (!handle) {
    perform(o, [&] { k.run(c); }, [&] { if (meaning()) check_number(o, form ? form : want, pt.env, c.value); }, NoFail());
    return;
  }
  if (k.use == CTM_CONVERT) {
    Res<LE> r; c.mem = r.mem();
    perform(o, [&] { k.run(c); }, [&] { meaning(); finish_expr(o, r, [&](P const& act) { return value_err(o, form ? form : want, act, k.text); }); }, NoFail());
    return;
  }
  NEED(o.op.a >= 0 && o.op.a < SCR); LIVE(LE, o.op.a);
  Slot& dst = o.w.at(S_E, o.op.a); o.operand(dst.m); c.target = &obj<LE>(dst);
  perform(o, [&] { k.run(c); }, [&] {
    if (!meaning()) return;
    bool bad = false; std::string why; P act = walk_expr(obj<LE>(dst), bad, &why);
    if (bad) { bad_result(o, "result-unreadable", "the result cannot be read: %s", why.c_str()); o.w.tainted = true; return; }
    std::string err = value_err(o, form ? form : want, act, k.text);
    if (!err.empty()) bad_result(o, "wrong-assignment", "%s assigned to a handle: %s; result %s", k.text, err.c_str(), show2(act).c_str());
    o.digest(act ? act->hash : 7); dst.m = act;
  }, NoFail());
}
