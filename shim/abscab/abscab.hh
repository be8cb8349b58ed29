// Stand-in for abscab-cpp (not available offline): closed-form Biot-Savart of
// straight segments and circular loops. Same signatures, "adds into the output" contract.
#pragma once
namespace abscab {
constexpr double MU_0 = 1.25663706212e-6;
void magneticFieldPolygonFilament(int numVertices, const double* vertices, double current, int numEvalPos,
    const double* evalPos, double* magneticField, int numProcessors = 1, bool comp = true);
void vectorPotentialPolygonFilament(int numVertices, const double* vertices, double current, int numEvalPos,
    const double* evalPos, double* vectorPotential, int numProcessors = 1, bool comp = true);
void magneticFieldCircularFilament(const double* center, const double* normal, double radius, double current,
    int numEvalPos, const double* evalPos, double* magneticField);
void vectorPotentialCircularFilament(const double* center, const double* normal, double radius, double current,
    int numEvalPos, const double* evalPos, double* vectorPotential);
}  // namespace abscab
