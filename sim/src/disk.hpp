// Simulated storage: the files the code under test opens live here. Every open
// and every read crosses the seam and may be short, interrupted, or fail.
#pragma once
#include "core.hpp"
namespace sim {
struct DiskFile {
  std::string pristine;                 // what the writer meant to store
  std::string bytes;                    // what the medium holds
  u64 reads = 0, opens = 0;
  struct Fault { std::string kind; long arg; };
  std::map<u64, Fault> read_faults;     // at the n-th read
  std::map<u64, int> open_faults;       // at the n-th open: errno
  u64 faults_fired = 0;                 // errors actually delivered (EIO, EINTR, failed opens)
};
extern std::map<std::string, DiskFile> disk;   // by path
std::string disk_path(int k, const std::string& fmt);
std::string unescape(const std::string& s);
std::string escape(const std::string& s);
// content helpers of the harness
std::string compress(const std::string& fmt, const std::vector<std::string>& parts);
bool decompress(const std::string& fmt, const std::string& bytes, std::string& content);   // strict: false if damaged
// read "file", "data", "disk", "rd", "openfail" lines of a plan
void disk_load(const Plan& p);
void disk_heal(const std::string& path);   // faults stop, the intended content is there

// independent reading of DIMACS text
struct DimacsRef {
  bool ok = true;                       // false: a token that is not a number
  std::vector<std::vector<int>> clauses;// in order (those before the bad token if !ok)
  unsigned vars = 0;                    // variables the file declares or mentions
  u64 biggest = 0;                      // largest number seen
  std::map<unsigned, std::string> alias;
};
DimacsRef dimacs_read(const std::string& text, bool aliases);
}
