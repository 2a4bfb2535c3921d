// Compiled against the copy of the headers without ROW_MAJOR and with the library's namespace renamed.
#define OPS_NS ops_columns
#include "C33_impl.hpp"
std::unique_ptr<Layout> column_layout() { return std::make_unique<ops_columns::Machine>(); }
