// symbolic builds only: numbers read from text streams go through model/text.cpp
namespace std { template <> template <> __attribute__((visibility("hidden"))) istream& istream::_M_extract<double>(double&); }
#include_next <bits/istream.tcc>
