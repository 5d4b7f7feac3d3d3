// C32: what the threads do (compiled with the memory accesses instrumented)
#pragma once
#include <cstddef>
#include <string>
#include <vector>

namespace c32 {
/// Objects that are only queried while several threads share them
size_t subjects();
char const* subject_name(size_t s);
size_t queries(size_t s);
char const* query_name(size_t s, size_t q);
/// Build the shared object (before the threads start)
void prepare(size_t s, std::string const& dir);
/// Ask one query; the answer in a form that can be compared
std::string ask(size_t s, size_t q, int thread);
/// Histories of objects that belong to one thread
size_t scripts();
char const* script_name(size_t s);
std::string play(size_t s, int thread);
} // namespace c32
