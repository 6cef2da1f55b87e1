#ifndef SHIM_TF2_EXC_H
#define SHIM_TF2_EXC_H
#include <stdexcept>
#include <string>
namespace tf2
{
struct TransformException : public std::runtime_error { explicit TransformException(const std::string& e) : std::runtime_error(e) {} };
struct ConnectivityException : public TransformException { using TransformException::TransformException; };
struct LookupException : public TransformException { using TransformException::TransformException; };
struct ExtrapolationException : public TransformException { using TransformException::TransformException; };
struct InvalidArgumentException : public TransformException { using TransformException::TransformException; };
struct TimeoutException : public TransformException { using TransformException::TransformException; };
}  // namespace tf2
#endif
