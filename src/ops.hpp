// Shared between monitor translation units.
#pragma once
#include "mon.hpp"
void gen_case_any(Mon &m, const OpDesc *d, CallIn &in);
bool has_oracle(const OpDesc *d);                                        // judged exactly by the reference model
void judge_direct(Mon &m, const OpDesc *d, int rm, const CallIn &in);   // one call in the environment as it is, judged as under mode rm
