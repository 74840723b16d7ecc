// A watchdog for operations that must terminate: if an armed operation makes
// no progress for `limit` seconds the run is reported as a hang and ended.
#pragma once
#include <thread>
#include "vp.hpp"

namespace vp
{
    struct watchdog_t
    {
        std::atomic<long> ticks {0};
        std::atomic<bool> armed {false};
        std::atomic<bool> quit {false};
        const char* what = "";
        int limit;
        std::thread thread;

        watchdog_t(int limit=25) : limit(limit)
        {
            thread = std::thread([this]
            {
                long last = -1;
                int stuck = 0;
                while (! quit)
                {
                    std::this_thread::sleep_for(std::chrono::milliseconds(200));
                    long now = ticks;
                    stuck = (armed && now == last) ? stuck + 1 : 0;
                    last = now;
                    if (stuck > this->limit * 5)
                    {
                        vp::violation(std::string("hang/") + what, std::string("operation never finished: ") + what);
                        vp::finish();
                        std::fflush(nullptr);
                        _exit(0);
                    }
                }
            });
        }
        ~watchdog_t() { quit = true; thread.join(); }
        template<typename F> auto guard(const char* name, F&& f)
        {
            what = name; ticks++; armed = true;
            struct off_t { watchdog_t& w; ~off_t() { w.armed = false; w.ticks++; } } off {*this};
            return f();
        }
    };
}
