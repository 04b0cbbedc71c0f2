#pragma once
#include <chia/phase2.h>
namespace phase2 { void compute(const phase1::output_t& input, output_t& out, const int num_threads, const int log_num_buckets, const std::string plot_name, const std::string tmp_dir, const std::string tmp_dir_2); } // defined by the harness
