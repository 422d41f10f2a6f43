#include "cstring"
