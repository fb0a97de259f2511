// Loads map files into the client's tracepoint map and prints what it resolves: tpmap MAPS, ids on standard input.
#include "tracepoint_map.hpp"
#include <cstdint>
#include <cstdio>
#include <iostream>
#include <string>

int main(int argc, char** argv)
{
    if (argc < 2) return 2;
    HawkTracer::client::TracepointMap map;
    for (int i = 1; i < argc; i++)
    {
        std::string a = argv[i];
        if (a.compare(0, 2, "1:") == 0) printf("%d\n", (int)map.load_map(a.substr(2)));
        else map.load_maps(a.substr(2));
    }
    std::string cmd; uint64_t id;
    while (std::cin >> cmd >> id)
    {
        if (cmd == "+") { std::string l; std::cin >> l; map.add_map_entry(id, l); }
        else { auto r = map.get_label_info(id); printf("%s\t%s\n", r.label.c_str(), r.category.c_str()); }
    }
    return 0;
}
