// Stand-in for pythonapi/OutputStream.cc: no Python; FATAL throws like the original.
#include "OutputStream.hh"
#include "dsException.hh"
#include "ObjectHolder.hh"
int se_stub_messages = 0;
void OutputStream::WriteOut(OutputType ot, const std::string &msg) { ++se_stub_messages; if (ot == OutputType::FATAL) throw dsException(msg); }
void OutputStream::WriteOut(OutputType ot, Verbosity_t, const std::string &msg) { ++se_stub_messages; if (ot == OutputType::FATAL) throw dsException(msg); }
OutputStream::Verbosity_t OutputStream::GetVerbosity(const std::string &) { return Verbosity_t::V0; }
