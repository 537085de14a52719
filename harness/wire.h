// What the drivers share: tab-separated commands in, one JSON object per command out.
#pragma once
#include <cmath>
#include <cstdio>
#include <functional>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>

namespace wire
{
    using std::string;
    using std::vector;

    struct Unknown
    {
    };
    struct NoSlot
    {
    };

    inline string jstr(const string &s)
    {
        std::ostringstream o;
        o << '"';
        for (unsigned char c : s)
        {
            if (c == '"' || c == '\\')
                o << '\\' << c;
            else if (c < 32 || c > 126)
            {
                char b[8];
                snprintf(b, sizeof b, "\\u%04x", c);
                o << b;
            }
            else
                o << c;
        }
        o << '"';
        return o.str();
    }

    inline long micro(double x)
    {
        if (!(x > -2000 && x < 2000))
            return 2000000001;
        return std::llround(x * 1e6);
    }

    template <typename C>
    inline string items(const C &v)
    {
        std::ostringstream o;
        o << '[';
        bool first = true;
        for (auto &x : v)
        {
            o << (first ? "" : ",") << x;
            first = false;
        }
        o << ']';
        return o.str();
    }

    inline int serve(const std::function<string(const vector<string> &)> &run, const std::function<string()> &last)
    {
        string line;
        while (std::getline(std::cin, line))
        {
            vector<string> f;
            size_t from = 0;
            while (true)
            {
                auto to = line.find('\t', from);
                if (to == string::npos)
                {
                    f.push_back(line.substr(from));
                    break;
                }
                f.push_back(line.substr(from, to - from));
                from = to + 1;
            }
            string answer;
            try
            {
                answer = run(f);
            }
            catch (const NoSlot &)
            {
                answer = "{\"res\":\"noslot\"}";
            }
            catch (const Unknown &)
            {
                std::cerr << "driver: " << line << std::endl;
                return 99;
            }
            catch (const std::exception &e)
            {
                answer = "{\"res\":\"exc\",\"what\":" + jstr(e.what()) + "}";
            }
            std::cout << answer << "\n" << std::flush;
        }
        std::cout << last() << "\n" << std::flush;
        return 0;
    }
} // namespace wire
