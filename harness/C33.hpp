#pragma once
#include "ops_out.hpp"
#include <memory>
// One build of the library, in one storage order.
struct Layout {
    virtual ~Layout() = default;
    virtual bool row_major() const                           = 0;
    virtual std::size_t operations() const                   = 0;
    virtual const char *name(std::size_t op) const           = 0;
    virtual int flags(std::size_t op) const                  = 0;
    virtual int run(std::size_t op, int variant, Out &) const = 0; // 1 when it ends in an exception
    // A small machine: a matrix of each kind, changed by a history of operations.
    virtual std::size_t actions() const               = 0;
    virtual void start(int variant)                   = 0;
    virtual int act(std::size_t action)               = 0;
    virtual void observe(Out &) const                 = 0;
};
std::unique_ptr<Layout> row_layout();
std::unique_ptr<Layout> column_layout();
