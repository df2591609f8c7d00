#include <boost/regex.hpp>
