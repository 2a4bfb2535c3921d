// C18-C20: files and text.
#pragma once
#include "C05.hpp"
#include <dirent.h>
#include <fstream>
#include <iomanip>
#include <iostream>
#include <malg/io.hpp>
#include <sys/stat.h>
#include <unistd.h>
// One scratch file per process.
inline const std::string &scratch()
{
    static const std::string name = [] {
        const char *dir = std::getenv("VERIF_SCRATCH");
        return std::string(dir ? dir : "/tmp") + "/malg-" + std::to_string(::getpid()) + ".txt";
    }();
    return name;
}
struct Scratch {
    ~Scratch() { ::unlink(scratch().c_str()); }
};
inline std::string slurp(const std::string &name)
{
    std::ifstream f(name, std::ios::binary);
    std::ostringstream o;
    o << f.rdbuf();
    return o.str();
}
inline void spill(const std::string &name, const std::string &text)
{
    FILE *f = std::fopen(name.c_str(), "wb");
    if (f) {
        std::fwrite(text.data(), 1, text.size(), f);
        std::fclose(f);
    }
}
// Everything about a stream that formats later output.
struct Format {
    std::ios::fmtflags flags;
    std::streamsize precision, width;
    char fill;
    explicit Format(const std::ios &s) : flags(s.flags()), precision(s.precision()), width(s.width()), fill(s.fill()) {}
    bool operator==(const Format &o) const { return flags == o.flags && precision == o.precision && width == o.width && fill == o.fill; }
};
