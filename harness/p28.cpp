// P28: the Python extension module, exactly as in the repository; harness/p28_driver.py imports and exercises it.
#include "main.cpp"
