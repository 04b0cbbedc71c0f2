#pragma once
#include <chia/phase1.h>
#include <chia/DiskTable.h>
#include <chia/Thread.h>
#include <chia/ThreadPool.h>
#include <chia/bits.hpp>
#include <chia/util.hpp>
#include <list>
#include <map>
#include <thread>
#include <chrono>
#include <cmath>
#include <algorithm>
namespace phase1 { void compute(const input_t& input, output_t& out, const int num_threads, const int log_num_buckets, const std::string plot_name, const std::string tmp_dir, const std::string tmp_dir_2); } // defined by the harness
