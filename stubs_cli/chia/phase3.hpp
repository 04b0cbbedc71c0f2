#pragma once
#include <chia/phase3.h>
namespace phase3 { void compute(phase2::output_t& input, output_t& out, const int num_threads, const int log_num_buckets, const std::string plot_name, const std::string tmp_dir, const std::string tmp_dir_2, const std::string plot_dir); } // defined by the harness
