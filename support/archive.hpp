// Storing to and loading from each kind of boost archive, in memory.
#pragma once
#include <boost/archive/text_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/xml_oarchive.hpp>
#include <boost/archive/xml_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/binary_iarchive.hpp>
#include <sm_boost/portable_binary_oarchive.hpp>
#include <sm_boost/portable_binary_iarchive.hpp>
#include <boost/serialization/nvp.hpp>
#include <sstream>
namespace arc {
enum { TEXT, XML, BINARY, PORTABLE, KINDS };
static const char* const kNames[] = {"text", "xml", "binary", "portable binary"};
template <class A, class T> std::string out(const T& t) {
  std::ostringstream o(std::ios::binary);
  { A a(o); a << boost::serialization::make_nvp("v", t); }
  return o.str();
}
template <class A, class T> void in(const std::string& s, T& t) {
  std::istringstream i(s, std::ios::binary);
  A a(i);
  a >> boost::serialization::make_nvp("v", t);
}
template <class T> std::string save(int k, const T& t) {
  switch (k) {
    case TEXT: return out<boost::archive::text_oarchive>(t);
    case XML: return out<boost::archive::xml_oarchive>(t);
    case BINARY: return out<boost::archive::binary_oarchive>(t);
    default: return out<boost::archive::portable_binary_oarchive>(t);
  }
}
template <class T> void load(int k, const std::string& s, T& t) {
  switch (k) {
    case TEXT: return in<boost::archive::text_iarchive>(s, t);
    case XML: return in<boost::archive::xml_iarchive>(s, t);
    case BINARY: return in<boost::archive::binary_iarchive>(s, t);
    default: return in<boost::archive::portable_binary_iarchive>(s, t);
  }
}
}  // namespace arc
