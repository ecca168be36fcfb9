// Stand-in for pythonapi/Interpreter.cc: the procedure named "proc" returns 3 a + 5 b of its (up to two) arguments; others fail.
#include "Interpreter.hh"
Interpreter::Interpreter() {} Interpreter::~Interpreter() {}
bool Interpreter::RunCommand(ObjectHolder &c, std::vector<ObjectHolder> &a) {
  if (c.GetString() != "proc") { error_string_ = "failed"; return false; }
  double r = 0; for (size_t i = 0; i < a.size(); i++) r += (i ? 5 : 3) * a[i].GetDouble().second; result_ = ObjectHolder(r); return true; }
bool Interpreter::RunCommand(ObjectHolder &, ObjectHolderMap_t &) { error_string_ = "failed"; return false; }
bool Interpreter::RunInternalCommand(const std::string &, const std::vector<std::pair<std::string, ObjectHolder>> &) { error_string_ = "failed"; return false; }
