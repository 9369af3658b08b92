#pragma once
extern "C" double cr_cos(double);
