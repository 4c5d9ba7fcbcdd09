#pragma once
#include "cases.h"
namespace props {
void run();        // the property named by core::plan.prop
void on_crash();   // called by the simulated disk at a planned crash
}
