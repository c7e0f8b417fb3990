#include <blaze/mini.hpp>
