#include "common.h"
int main(int argc, char** argv)
{
    hx::R().parse(argc, argv);
    auto it = hx::modes().find(hx::R().a.mode);
    if (it == hx::modes().end())
        return 3;
    return hx::run_cases(it->second);
}
