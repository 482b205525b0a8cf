#pragma once
#define B_VALUE 7
