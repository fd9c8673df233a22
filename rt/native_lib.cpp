// Library code of the node containers, compiled with the instrumentation of the code under test.
#include <list>
#include <map>
#include <utility>
namespace std {
#include "tree_models.inc"
}
