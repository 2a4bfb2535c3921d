#pragma once
#include "ops_out.hpp"
// The operations, compiled with the instrumentation of memory accesses.
std::size_t ops_count();
const char *ops_name(std::size_t);
int ops_flags(std::size_t);
int ops_variants();
void ops_prepare();                                            // builds the shared inputs
int ops_run(std::size_t op, std::size_t variant, Out &result); // 1 when it ends in an exception
bool ops_inputs_kept(std::string &why);                        // the shared inputs are as they were
