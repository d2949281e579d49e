#pragma once
#include <string>
#include <vector>
namespace WBMQTT
{
    struct TUnitType
    {
        std::string Unit;
    };
    inline std::vector<std::string> GetUnitTypes()
    {
        return {"V", "A", "W", "kWh"};
    }
}
