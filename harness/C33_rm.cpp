#define OPS_NS ops_rows
#include "C33_impl.hpp"
std::unique_ptr<Layout> row_layout() { return std::make_unique<ops_rows::Machine>(); }
