// Runs the real commands with named arguments.
#pragma once
#include "Python.h"
#include "CommandHandler.hh"
#include "GetArgs.hh"
#include "ObjectHolder.hh"
#include "dsException.hh"
typedef std::map<std::string, ObjectHolder> Args;
struct Res { bool ok; ObjectHolder value; std::string error; };
inline Res command(newcmd f, const char *name, Args a) {
  dsGetArgs::CommandInfo info; info.command_name_ = name; ObjectHolder h(a); info.kwargs_ = reinterpret_cast<PyObject *>(h.GetObject());
  CommandHandler ch(&info); info.command_handler_ = &ch;
  try { f(ch); } catch (const dsException &x) { return {false, ObjectHolder(), x.what()}; }
  return {ch.GetReturnCode() == 1, ch.GetReturnObject(), ch.GetErrorString()}; }
