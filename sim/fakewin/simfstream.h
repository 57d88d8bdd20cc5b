// std::fstream with MSVC's open(name, int mode): the file descriptor calls below it are the simulator's (simfile.cpp).
#pragma once
#include <fstream>
#include <string>
namespace std {
class SimFstream : public fstream {
public:
	using fstream::fstream;
	using fstream::open;
	void open(const string &n, int m) { fstream::open(n, static_cast<ios_base::openmode>(m)); }
	void open(const char* n, int m) { fstream::open(n, static_cast<ios_base::openmode>(m)); }
};
}
#define fstream SimFstream
