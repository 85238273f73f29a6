// Replacement for common/log.cc (console output only): same interface, no I/O.
#include "sx.h"
#include <common/log.hh>
#include <common/settings.hh>
#include <common/cmdlib.hh>
extern "C" { int sx_qassert_ends = 0; int sx_par_order = 0; }
#include "stubs/tbb/par_order.h"
namespace sx_tbb
{
loop *current = nullptr;
static size_t take(loop &l)
{
    const size_t n = l.left.size();
    const size_t k = sx_par_order == 0 || n == 1 ? 0 : sx_par_order == 1 ? n - 1 : sx_choice((uint32_t)n, "schedule");
    const size_t i = l.left[k];
    l.left.erase(l.left.begin() + k);
    return i;
}
void run(loop &l)
{
    l.outer = current;
    current = &l;
    while (!l.left.empty()) l.call(l.ctx, take(l));
    current = l.outer;
}
} // namespace sx_tbb
extern "C" int sx_par_run_other()
{
    auto *l = sx_tbb::current;
    if (!l || l->left.empty()) return 0;
    l->call(l->ctx, sx_tbb::take(*l));
    return 1;
}
namespace logging
{
bitflags<flag> mask = bitflags<flag>(flag::ALL) & ~bitflags<flag>(flag::VERBOSE);
bool enable_color_codes = true;
void preinitialize() {}
void init(const fs::path &, const settings::common_settings &) {}
void close() {}
void set_print_callback(print_callback_t) {}
void print(flag, const char *) {}
void vprint(flag, fmt::string_view, fmt::format_args) {}
void print(const char *) {}
void vprint(fmt::string_view, fmt::format_args) {}
void header(const char *) {}
void assert_(bool success, const char *expr, const char *, int)
{
    if (!success) {
        if (sx_qassert_ends == 2) throw ericwtools_error(expr);
        if (sx_qassert_ends) {
            sx_reach("q_assert");
            sx_end();
        }
        sx_fail(expr);
    }
}
void set_percent_callback(percent_callback_t) {}
void percent(uint64_t, uint64_t, bool) {}
percent_clock::percent_clock(uint64_t i_max) : max(i_max) {}
void percent_clock::increase() { count++; }
void percent_clock::operator()() { increase(); }
void percent_clock::operator++(int) { increase(); }
void percent_clock::print() { ready = false; }
percent_clock::~percent_clock() {}
stat_tracker_t::stat &stat_tracker_t::register_stat(const std::string &name, bool show_even_if_zero, bool is_warning)
{
    return stats.emplace_back(name, show_even_if_zero, is_warning);
}
size_t stat_tracker_t::number_of_digits(size_t n) { return 1; }
size_t stat_tracker_t::number_of_digit_padding() { return 1; }
void stat_tracker_t::print_stats() { stats_printed = true; }
stat_tracker_t::~stat_tracker_t() {}
} // namespace logging
ericwtools_error::ericwtools_error(const char *what) : std::runtime_error(what) {}
[[noreturn]] void exit_on_exception(const std::exception &) { sx_end(); }
[[noreturn]] void Error(const char *error) { throw ericwtools_error(error); }
[[noreturn]] void VError(fmt::string_view format, fmt::format_args)
{
    std::string s(format.data(), format.size());
    Error(s.c_str());
}
