#include "app/general.cpp"
