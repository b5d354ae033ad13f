#include "app/options.cpp"
