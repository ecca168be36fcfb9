// Stand-in for utility/FPECheck.cc: the hardware flags say nothing about symbolic values.
#include "FPECheck.hh"
FPECheck::FPEFlag_t FPECheck::fpe_raised_;
void FPECheck::InitializeFPE() {}
void FPECheck::ClearFPE() {}
bool FPECheck::CheckFPE() { return false; }
bool FPECheck::CheckFPE(FPEFlag_t) { return false; }
std::string FPECheck::getFPEString() { return ""; }
std::string FPECheck::getFPEString(FPEFlag_t) { return ""; }
FPECheck::FPEFlag_t FPECheck::getFPEFlags() { return 0; }
FPECheck::FPEFlag_t FPECheck::combineFPEFlags(FPEFlag_t x, FPEFlag_t) { return x; }
bool FPECheck::IsUnderflow(FPEFlag_t) { return false; }
bool FPECheck::IsOverflow(FPEFlag_t) { return false; }
bool FPECheck::IsInexact(FPEFlag_t) { return false; }
bool FPECheck::IsDivByZero(FPEFlag_t) { return false; }
bool FPECheck::IsInvalid(FPEFlag_t) { return false; }
FPECheck::FPEFlag_t FPECheck::getFPEMask() { return 0; }
FPECheck::FPEFlag_t FPECheck::getClearedFlag() { return 0; }
void FPECheck::raiseFPE(FPEFlag_t) {}
double FPECheck::ManualCheckAndRaiseFPE(const double &x) { return x; }
