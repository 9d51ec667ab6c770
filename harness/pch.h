#include <string>
#include <memory>
#include <vector>
#include <map>
#include <algorithm>
#include <cstring>
#include <fmt/format.h>
#include <fmt/core.h>
#include <fmt/color.h>
#include <fmt/chrono.h>
#include <utility>
#include <mutex>
#include <cstdint>
#include <cmath>
#include <limits>
#include <iostream>
#include <sstream>
#include <functional>
#include <thread>
#include <string_view>
#include <cstdio>
#include <iomanip>
#include <array>
#include <set>
#include <list>
#include <iterator>
#include <chrono>
#include <atomic>
#include <deque>
#include <condition_variable>
#include <fstream>
#include <filesystem>
#include <queue>
#include <unordered_set>
#include <unordered_map>
#include <random>
