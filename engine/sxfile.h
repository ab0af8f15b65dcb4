// In-memory stand-in for file streams (harness option files=1): every file the code opens lives in sx_fs(), so that paths
// explored in forked processes do not share file descriptors and nothing touches the disk.
#ifndef SXFILE_H
#define SXFILE_H
#include <iostream>
#include <fstream>
#include <sstream>
#include <iomanip>
#include <string>
#include <map>
#include <vector>
#include <set>
#include <list>
#include <algorithm>
#include <memory>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <cmath>
std::map<std::string, std::string>& sx_fs();
class sx_stream_ : public std::stringstream {
  std::string nm; bool w = false, op = false; bool in_ = false;
public:
  sx_stream_() {}
  sx_stream_(const char* n, std::ios_base::openmode m) { open(n, m); }
  sx_stream_(const std::string& n, std::ios_base::openmode m) { open(n.c_str(), m); }
  void open(const char* n, std::ios_base::openmode m) {
    close(); nm = n; w = (m & std::ios_base::out) || (m & std::ios_base::app); op = true; str(""); clear();
    if (m & std::ios_base::app) { if (sx_fs().count(nm)) *this << sx_fs()[nm]; }
    else if (!w) { if (sx_fs().count(nm)) str(sx_fs()[nm]); else { op = false; setstate(std::ios_base::failbit); } }
    else sx_fs()[nm] = "";
  }
  void open(const std::string& n, std::ios_base::openmode m) { open(n.c_str(), m); }
  bool is_open() const { return op; }
  void close() { if (op && w) sx_fs()[nm] = str(); op = false; }
  ~sx_stream_() { close(); }
};
class sx_ifstream_ : public sx_stream_ { public: sx_ifstream_() {} sx_ifstream_(const char* n, std::ios_base::openmode m = std::ios_base::in) : sx_stream_(n, m) {} sx_ifstream_(const std::string& n, std::ios_base::openmode m = std::ios_base::in) : sx_stream_(n, m) {} void open(const char* n, std::ios_base::openmode m = std::ios_base::in) { sx_stream_::open(n, m); } void open(const std::string& n, std::ios_base::openmode m = std::ios_base::in) { sx_stream_::open(n, m); } };
class sx_ofstream_ : public sx_stream_ { public: sx_ofstream_() {} sx_ofstream_(const char* n, std::ios_base::openmode m = std::ios_base::out) : sx_stream_(n, m | std::ios_base::out) {} sx_ofstream_(const std::string& n, std::ios_base::openmode m = std::ios_base::out) : sx_stream_(n, m | std::ios_base::out) {} void open(const char* n, std::ios_base::openmode m = std::ios_base::out) { sx_stream_::open(n, m | std::ios_base::out); } void open(const std::string& n, std::ios_base::openmode m = std::ios_base::out) { sx_stream_::open(n, m | std::ios_base::out); } };
class sx_fstream_ : public sx_stream_ { public: sx_fstream_() {} sx_fstream_(const char* n, std::ios_base::openmode m = std::ios_base::in | std::ios_base::out) : sx_stream_(n, m) {} sx_fstream_(const std::string& n, std::ios_base::openmode m = std::ios_base::in | std::ios_base::out) : sx_stream_(n, m) {} };
namespace std { typedef ::sx_ifstream_ sx_ifs_t; typedef ::sx_ofstream_ sx_ofs_t; typedef ::sx_fstream_ sx_fs_t; }
#ifndef SX_FILE_IMPL
#define ifstream sx_ifs_t
#define ofstream sx_ofs_t
#define fstream sx_fs_t
#endif
// value of a number in a recorded file (symbolic values are kept symbolic)
extern "C" double sx_parse(const char* token);
#endif
// exceptions are compiled out of the instrumented build; a throw there ends the path
#if !defined(__cpp_exceptions) && !defined(SX_THROW)
#define SX_THROW
#include <stdexcept>
#include <functional>
#include <iterator>
#include <limits>
static inline void sx_thrown_() { abort(); }
#define throw sx_thrown_(),
#endif
