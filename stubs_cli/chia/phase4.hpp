#pragma once
#include <chia/phase4.h>
namespace phase4 { void compute(const phase3::output_t& input, output_t& out, const int num_threads, const int log_num_buckets, const std::string plot_name, const std::string tmp_dir, const std::string tmp_dir_2, const std::string plot_dir); } // defined by the harness
