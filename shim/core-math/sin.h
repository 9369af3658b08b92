#pragma once
extern "C" double cr_sin(double);
