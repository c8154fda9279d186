"""What each check is built from. Paths in `sources` are relative to /repo."""

PARSET = ["common/ParameterSet.cc", "common/ParameterSetImpl.cc", "common/ParameterValue.cc",
          "common/ParameterRecord.cc", "common/StringTools.cc"]

STEP = PARSET + ["steps/Step.cc", "base/DPBuffer.cc", "base/DPInfo.cc", "base/FlagCounter.cc",
                 "base/BdaBuffer.cc", "common/Fields.cc"]
STEP_STUB = ["xtensor (bounds-checked mini version)", "casacore arrays, quanta, measures (mini version)",
             "schaapcommon thread pool and parallel loops (threads scheduled by the simulator)", "aocommon::UVector, Logger"]

MS = ["base/MS.cc", "common/NodeDesc.cc", "common/ClusterDesc.cc", "common/VdsDesc.cc", "common/VdsPartDesc.cc", "common/VdsMaker.cc"]

READER = ["steps/MsReader.cc", "steps/ResultStep.cc", "steps/InputStep.cc", "steps/MultiMsReader.cc", "steps/MSBDAReader.cc", "base/UVWCalculator.cc", "base/BaselineSelection.cc"]

STEPS = ["steps/" + x + ".cc" for x in (
    "AartfaacReader", "AntennaFlagger", "Averager", "BDAAverager", "BdaExpander", "Combine", "Counter", "Filter", "FlagTransfer",
    "Interpolate", "MadFlagger", "MSBDAWriter", "MsColumnReader", "MSUpdater", "MSWriter", "NullStokes", "PhaseShift",
    "PreFlagger", "ScaleData", "SetBeam", "Split", "StationAdder", "SVPInput", "Transfer", "Upsample", "UVWFlagger")] + [
    "antennaflagger/Flagger.cc", "base/SubtableWriter.cc", "base/Simulate.cc"]

SOLVERS = ["ddecal/gain_solvers/" + x + ".cc" for x in (
    "ScalarSolver", "DiagonalSolver", "FullJonesSolver", "IterativeScalarSolver", "IterativeDiagonalSolver",
    "IterativeFullJonesSolver", "HybridSolver", "SolverBase", "SolveData", "SolverTools", "BdaSolverBuffer")] + [
    "ddecal/constraints/Constraint.cc", "ddecal/linear_solvers/LLSSolver.cc"]

PARMDB = ["parmdb/" + x + ".cc" for x in (
    "Axis", "AxisMapping", "Box", "Grid", "Parm", "ParmCache", "ParmDB", "ParmDBCasa", "ParmDBLocker", "ParmDBMeta", "ParmFacade",
    "ParmFacadeLocal", "ParmFacadeRep", "ParmSet", "ParmValue")]

CALIB = SOLVERS + ["ddecal/" + x + ".cc" for x in (
    "Settings", "SolverFactory", "SolutionWriter", "SolutionResampler", "InitialSolutions",
    "constraints/AntennaIntervalConstraint", "constraints/FaradayConstraint", "constraints/PolarizationLeakageConstraint",
    "constraints/RotationAndDiagonalConstraint", "constraints/RotationConstraint", "constraints/SmoothnessConstraint",
    "constraints/TecConstraint", "constraints/TecOffsetDelayConstraint", "constraints/TecOffsetDelayFitting",
    "gain_solvers/DiagonalAntennaSolver")] + [
    "base/PhaseFitter.cc", "base/CalType.cc", "base/UVWCalculator.cc", "steps/UVWFlagger.cc", "steps/ResultStep.cc",
    "steps/MultiResultStep.cc"]

CHECKS = {
    "P01": dict(
        harness=["p01_lane.cc"],
        sources=[],
        quick=(20000, 30), thorough=(2000000, 600),
        real=["common/buffered_lane.h"],
        stub=["aocommon::Lane (bounded blocking queue)", "aocommon::UVector"],
    ),
    "P02": dict(
        harness=["p02_parset.cc"],
        sources=PARSET,
        quick=(20000, 40), thorough=(2000000, 600),
        real=["common/ParameterSet.{h,cc}", "common/ParameterSetImpl.{h,cc}",
              "common/ParameterValue.{h,cc}", "common/ParameterRecord.{h,cc}",
              "common/StringTools.{h,cc}"],
        stub=["aocommon::Logger"],
    ),
    "P03": dict(
        harness=["p03_parset_file.cc"],
        sources=PARSET,
        quick=(20000, 40), thorough=(2000000, 600),
        real=["common/ParameterSet.{h,cc}", "common/ParameterSetImpl.{h,cc}",
              "common/ParameterValue.{h,cc}", "common/ParameterRecord.{h,cc}",
              "common/StringTools.{h,cc}", "libstdc++ file streams"],
        stub=["storage fault layer over a scratch directory", "aocommon::Logger"],
    ),
    "P04": dict(
        harness=["p04_aartfaac.cc"],
        sources=[],
        quick=(20000, 40), thorough=(2000000, 600),
        real=["aartfaac/File.h", "aartfaac/PacketHeader.h", "base/RcuMode.h", "libstdc++ file streams"],
        stub=["storage fault layer over a scratch directory"],
    ),
    "P05": dict(
        harness=["p05_timer.cc"],
        sources=["common/PrettyUnits.cc"],
        quick=(20000, 40), thorough=(2000000, 600),
        real=["common/Timer.h", "common/PrettyUnits.{h,cc}"],
        stub=["monotonic, wall and processor clocks"],
    ),
    "P06": dict(
        harness=["p06_lls.cc"],
        sources=["ddecal/linear_solvers/LLSSolver.cc"],
        plain=["lapack.cc"],
        libs=["-Wl,--no-as-needed", "-llapack", "-lblas"],
        quick=(20000, 40), thorough=(2000000, 600),
        real=["ddecal/linear_solvers/LLSSolver.{h,cc}", "ddecal/linear_solvers/QRSolver.h",
              "ddecal/linear_solvers/SVDSolver.h", "ddecal/linear_solvers/NormalEquationsSolver.h",
              "LAPACK/OpenBLAS (not instrumented)"],
        stub=["LAPACK failure injection", "memory allocation failures"],
    ),
    "P07": dict(
        harness=["p07_averager.cc"],
        sources=STEP + ["steps/Averager.cc"],
        quick=(20000, 60), thorough=(2000000, 600),
        real=["steps/Averager.{h,cc}", "steps/Step.{h,cc}", "base/DPBuffer.{h,cc}", "base/DPInfo.{h,cc}",
              "base/FlagCounter.{h,cc}", "common/ParameterSet*.{h,cc}"],
        stub=STEP_STUB,
    ),
    "P08": dict(
        harness=["p08_bda.cc"],
        sources=STEP + ["steps/BDAAverager.cc", "steps/BdaExpander.cc"],
        quick=(20000, 60), thorough=(2000000, 600),
        real=["steps/BDAAverager.{h,cc}", "steps/BdaExpander.{h,cc}", "steps/Step.{h,cc}", "base/BdaBuffer.{h,cc}",
              "base/DPBuffer.{h,cc}", "base/DPInfo.{h,cc}"],
        stub=STEP_STUB,
    ),
    "P09": dict(
        harness=["p09_mad.cc"],
        sources=STEP + ["steps/MadFlagger.cc"],
        quick=(20000, 60), thorough=(2000000, 600),
        real=["steps/MadFlagger.{h,cc}", "steps/Step.{h,cc}", "common/Median.h", "base/FlagCounter.{h,cc}",
              "base/DPBuffer.{h,cc}", "base/DPInfo.{h,cc}"],
        stub=STEP_STUB,
    ),
    "P10": dict(
        harness=["p10_interpolate.cc"],
        sources=STEP + ["steps/Interpolate.cc"],
        quick=(20000, 60), thorough=(2000000, 600),
        real=["steps/Interpolate.{h,cc}", "common/buffered_lane.h", "steps/Step.{h,cc}", "base/DPBuffer.{h,cc}",
              "base/DPInfo.{h,cc}"],
        stub=STEP_STUB + ["aocommon::Lane"],
    ),
    "P11": dict(
        harness=["p11_upsample.cc"],
        sources=STEP + ["steps/Upsample.cc", "base/UVWCalculator.cc"],
        quick=(20000, 60), thorough=(2000000, 600),
        real=["steps/Upsample.{h,cc}", "base/UVWCalculator.{h,cc}", "steps/Step.{h,cc}", "base/DPBuffer.{h,cc}",
              "base/DPInfo.{h,cc}"],
        stub=STEP_STUB + ["celestial frame conversions (identity)"],
    ),
    "P12": dict(
        harness=["p12_descriptions.cc"],
        sources=PARSET + ["common/NodeDesc.cc", "common/ClusterDesc.cc", "common/VdsDesc.cc", "common/VdsPartDesc.cc",
                          "common/VdsMaker.cc"],
        quick=(20000, 60), thorough=(2000000, 600),
        real=["common/NodeDesc.{h,cc}", "common/ClusterDesc.{h,cc}", "common/VdsDesc.{h,cc}", "common/VdsPartDesc.{h,cc}",
              "common/VdsMaker.cc (combine)", "common/ParameterSet*.{h,cc}"],
        stub=["open, read, write, lseek, close with seeded faults", "casacore Path, MVTime (mini versions)"],
    ),
    "P13": dict(
        harness=["p13_mswriter.cc"],
        sources=STEP + MS + ["steps/MSWriter.cc"],
        quick=(20000, 60), thorough=(2000000, 600),
        real=["steps/MSWriter.{h,cc}", "steps/NullStep.h", "steps/OutputStep.h", "base/MS.{h,cc}", "base/StManParsetKeys.h", "base/DPBuffer.{h,cc}",
              "base/DPInfo.{h,cc}", "common/VdsMaker.cc", "common/VdsDesc.cc"],
        stub=STEP_STUB + ["casacore tables (an in-memory disk with seeded errors)", "aocommon::Lane"],
    ),
    "P14": dict(
        harness=["p14_msreader.cc"],
        sources=STEP + MS + READER,
        quick=(20000, 60), thorough=(2000000, 600),
        real=["steps/MsReader.{h,cc}", "steps/InputStep.{h,cc}", "base/MS.{h,cc}", "base/UVWCalculator.{h,cc}",
              "base/FlagCounter.{h,cc}", "base/DPBuffer.{h,cc}", "base/DPInfo.{h,cc}"],
        stub=STEP_STUB + ["casacore tables (an in-memory disk with seeded errors)", "celestial frame conversions (identity)"],
    ),
    "P15": dict(
        harness=["p15_multims.cc"],
        sources=STEP + MS + READER,
        quick=(20000, 60), thorough=(2000000, 600),
        real=["steps/MultiMsReader.{h,cc}", "steps/MsReader.{h,cc}", "steps/InputStep.{h,cc}", "steps/ResultStep.{h,cc}",
              "base/MS.{h,cc}", "base/DPBuffer.{h,cc}", "base/DPInfo.{h,cc}"],
        stub=STEP_STUB + ["casacore tables (an in-memory disk with seeded errors)", "celestial frame conversions (identity)"],
    ),
    "P16": dict(
        harness=["p16_msupdater.cc"],
        sources=STEP + MS + READER + ["steps/MSUpdater.cc", "steps/MSWriter.cc"],
        quick=(20000, 60), thorough=(2000000, 600),
        real=["steps/MSUpdater.{h,cc}", "steps/MsReader.{h,cc}", "steps/OutputStep.h", "base/DPBuffer.{h,cc}",
              "base/DPInfo.{h,cc}", "base/StManParsetKeys.h"],
        stub=STEP_STUB + ["casacore tables (an in-memory disk with seeded errors)", "celestial frame conversions (identity)"],
    ),
    "P17": dict(
        harness=["p17_pipeline.cc"],
        includes=["shim/stub"],
        libs=["-lboost_filesystem"],
        sources=STEP + MS + READER + STEPS + ["base/DP3.cc", "base/ProgressMeter.cc"],
        quick=(8000, 120), thorough=(1000000, 700),
        real=["base/DP3.cc", "base/ProgressMeter.{h,cc}", "steps/InputStep.{h,cc}", "steps/MsReader.{h,cc}", "steps/MSWriter.{h,cc}",
              "steps/MSUpdater.{h,cc}", "steps/Split.{h,cc}", "steps: averager, filter, preflagger, uvwflagger, madflagger, antennaflagger, "
              "interpolate, upsample, scaledata, nullstokes, counter, phaseshift, stationadder, columnreader, combine, null, BDA averager "
              "and expander", "common/ParameterSet*.{h,cc}"],
        stub=STEP_STUB + ["casacore tables (an in-memory disk with seeded errors)", "celestial frame conversions (identity)",
                          "steps that need libraries which are not here (cannot be made)"],
    ),
    "P18": dict(
        harness=["p18_solver.cc"],
        sources=STEP + SOLVERS,
        plain=["lapack.cc"],
        libs=["-Wl,--no-as-needed", "-llapack", "-lblas"],
        quick=(20000, 60), thorough=(1000000, 600),
        real=["ddecal/gain_solvers/{Scalar,Diagonal,FullJones}Solver", "ddecal/gain_solvers/Iterative{Scalar,Diagonal,FullJones}Solver",
              "ddecal/gain_solvers/SolverBase", "ddecal/gain_solvers/SolveData", "ddecal/gain_solvers/SolverTools", "ddecal/linear_solvers"],
        stub=STEP_STUB + ["xsimd (scalar version)", "aocommon::Matrix2x2", "LAPACK is the system library"],
    ),
    "P19": dict(
        harness=["p19_iterations.cc"],
        sources=STEP + SOLVERS,
        plain=["lapack.cc"],
        libs=["-Wl,--no-as-needed", "-llapack", "-lblas"],
        quick=(20000, 60), thorough=(1000000, 600),
        real=["ddecal/gain_solvers/SolverBase", "ddecal/gain_solvers/HybridSolver", "ddecal/gain_solvers/{Scalar,Diagonal,FullJones}Solver",
              "ddecal/gain_solvers/Iterative{Scalar,Diagonal,FullJones}Solver"],
        stub=STEP_STUB + ["xsimd (scalar version)", "aocommon::Matrix2x2", "the constraints are recorders"],
    ),
    "P20": dict(
        harness=["p20_ddecal.cc"],
        sources=STEP + CALIB + ["steps/DDECal.cc"],
        plain=["lapack.cc"],
        libs=["-Wl,--no-as-needed", "-llapack", "-lblas", "-lgsl", "-lgslcblas"],
        quick=(20000, 90), thorough=(1000000, 600),
        real=["steps/DDECal.{h,cc}", "steps/UVWFlagger", "steps/MultiResultStep", "ddecal/Settings", "ddecal/SolverFactory",
              "ddecal/SolutionWriter", "ddecal/SolutionResampler", "ddecal/InitialSolutions", "ddecal/constraints",
              "ddecal/gain_solvers"],
        stub=STEP_STUB + ["xsimd (scalar version)", "schaapcommon h5parm (in-memory files with seeded errors)",
                          "Predict, IDGPredict and MsColumnReader (produce given model data)"],
    ),
    "P21": dict(
        harness=["p21_constraints.cc"],
        sources=STEP + ["ddecal/constraints/" + x + ".cc" for x in (
            "Constraint", "AntennaIntervalConstraint", "FaradayConstraint", "PolarizationLeakageConstraint",
            "RotationAndDiagonalConstraint", "RotationConstraint", "SmoothnessConstraint", "TecConstraint",
            "TecOffsetDelayConstraint", "TecOffsetDelayFitting")] + ["base/PhaseFitter.cc", "base/CalType.cc"],
        plain=["lapack.cc"],
        libs=["-Wl,--no-as-needed", "-llapack", "-lblas", "-lgsl", "-lgslcblas"],
        quick=(20000, 60), thorough=(1000000, 600),
        real=["ddecal/constraints (all but the screen constraint)", "base/PhaseFitter", "common/PhaseLineFitter.h"],
        stub=STEP_STUB,
    ),
    "P22": dict(
        harness=["p22_applycal.cc"],
        includes=["shim/mini_parm"],
        sources=STEP + SOLVERS + ["steps/ApplyCal.cc", "steps/OneApplyCal.cc"],
        plain=["lapack.cc"],
        libs=["-Wl,--no-as-needed", "-llapack", "-lblas"],
        quick=(20000, 60), thorough=(1000000, 600),
        real=["steps/ApplyCal.{h,cc}", "steps/OneApplyCal.{h,cc}", "base/FlagCounter.{h,cc}", "base/DPBuffer.{h,cc}", "base/DPInfo.{h,cc}",
              "common/ParameterSet*.{h,cc}"],
        stub=STEP_STUB + ["schaapcommon h5parm and JonesParameters (in-memory tables with seeded errors)",
                          "parameter database (in-memory functions with seeded errors)", "aocommon::Matrix2x2"],
    ),
    "P23": dict(
        harness=["p23_gaincal.cc"],
        sources=STEP + CALIB + PARMDB + ["steps/GainCal.cc", "base/GainCalAlgorithm.cc", "steps/ApplyCal.cc", "steps/OneApplyCal.cc",
                                         "base/BaselineSelection.cc"],
        plain=["lapack.cc"],
        libs=["-Wl,--no-as-needed", "-llapack", "-lblas", "-lgsl", "-lgslcblas"],
        quick=(20000, 75), thorough=(1000000, 600),
        real=["steps/GainCal.{h,cc}", "base/GainCalAlgorithm.{h,cc}", "base/PhaseFitter", "steps/UVWFlagger", "steps/ApplyCal (static functions)",
              "base/BaselineSelection", "parmdb/ (ParmDB, ParmDBCasa, Axis, Grid, ParmValue ...)"],
        stub=STEP_STUB + ["casacore tables (in memory, with seeded errors)", "schaapcommon h5parm (in-memory files with seeded errors)",
                          "Predict and MsColumnReader (produce given model data)", "ApplyBeam (unused)", "aocommon::Matrix2x2"],
    ),
    "P24": dict(
        harness=["p24_parmdb.cc"],
        sources=PARMDB,
        quick=(60000, 60), thorough=(4000000, 600),
        real=["parmdb/ (ParmDB, ParmDBCasa, ParmFacadeLocal, ParmSet, ParmCache, Parm, ParmValue, Axis, AxisMapping, Grid, Box ...)"],
        stub=["casacore tables (in memory, with seeded errors)"],
    ),
}
