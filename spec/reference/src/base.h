#include <iostream>
#include <fstream>
#include <string>
#include <vector>
#include <map>
#include <tuple>
#include <cstdlib>
#include <unordered_map>
#include <algorithm>    // std::random_shuffle
#include <time.h>
#include <exception>
#include <cmath>
