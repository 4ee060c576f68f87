// Self-test of the verifier, run by every check: the first contract must hold, the others must be refuted.
#include <vp.hpp>
#include <new>
VP_CONTRACT(canary_true)
{
  unsigned a = vp_u32("a"), b = vp_u32("b");
  VP_CHECK((a ^ b) + 2ull * (a & b) == (unsigned long)a + b, "adder identity");
}
VP_CONTRACT(canary_false)
{
  unsigned a = vp_u32("a");
  VP_CHECK(a != 0xdeadbeefu, "one value in 2^32");
}
VP_CONTRACT(canary_uaf)
{
  int *p = new int(3);
  if (vp_u8("x") == 77) delete p;
  int v = *p;
  VP_CHECK(v == 3, "value");
}
