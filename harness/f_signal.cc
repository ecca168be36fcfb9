// F03: source waveforms.
#include "se.h"
#include "Signal.hh"
void se_main() {
  if (se_choose("kind", 2) == 0) { double v = se_real("v"), w = se_real("w"); DCOnly s(v); se_assert_eq(s.getVoltage(), v, "constant source"); se_assert_eq(s.CalcVoltage(se_real("t")), v, "constant source"); s.setVoltage(w); se_assert_eq(s.CalcVoltage(se_real("t2")), w, "constant source after it is set"); se_assert_eq(s.getVoltage(), w, "constant source after it is set"); se_reach("constant"); return; }
  double v1 = se_real("v1"), v2 = se_real("v2"), td = se_real("td"), tr = se_real("tr"), tf = se_real("tf"), pw = se_real("pw"), per = se_real("per"); se_assume(td >= 0); se_assume(tr > 0); se_assume(tf > 0); se_assume(pw >= 0); se_assume(per >= tr + pw + tf);
  Pulse s(v1, v2, td, tr, tf, pw, per); se_assert_eq(s.getVoltage(), v1, "initial value"); double t, p = 0; int m = -1;
  if (se_choose("before", 2)) { t = se_real("t"); se_assume(t < td); } else { m = se_choose("cycle", 4); if (m == 3) m = 1000; p = se_real("phase"); se_assume(p >= 0); se_assume(p < per); t = td + m * per + p; }
  double v = s.CalcVoltage(t); se_assert_eq(s.getVoltage(), v, "value is kept"); 
  if (m < 0) { se_assert_eq(v, v1, "before the delay"); se_reach("before"); }
  else if (p < tr) { se_assert_eqs((v - v1) * tr, (v2 - v1) * p, 1.0, "linear rise"); se_reach("rise"); }
  else if (p < tr + pw) { se_assert_eq(v, v2, "pulse value"); se_reach("pulse"); }
  else if (p < tr + pw + tf) { se_assert_eqs((v - v2) * tf, (v1 - v2) * (p - tr - pw), 1.0, "linear fall"); se_reach("fall"); }
  else { se_assert_eq(v, v1, "back at the initial value"); se_reach("rest"); }
}
