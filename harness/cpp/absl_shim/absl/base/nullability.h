// Stand-in for a recent Abseil (the installed one is too old): nullability annotations expand to nothing.
#pragma once
#define absl_nonnull
#define absl_nullable
#define absl_nullability_unknown
