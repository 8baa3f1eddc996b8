// the names of the groups of functions of sim/fhost.f90 (generated by tools/genf.py)
enum { FI_NCoupledDOF, FI_ExternalWaveKinInit, FI_ExternalWaveKinGetN, FI_GetNumberBodies, FI_GetNumberRods, FI_GetNumberPoints, FI_GetNumberLines, FI_GetBodyID, FI_GetBodyType, FI_GetRodID, FI_GetRodType, FI_GetRodN, FI_GetRodNumberNodes, FI_GetPointID, FI_GetPointType, FI_GetPointNAttached, FI_GetLineID, FI_GetLineN, FI_GetLineNumberNodes, FI_IsLineConstantEA, FI_IsLinePressBend };
enum { FR_GetAverageDepth, FR_GetMinDepth, FR_GetLineConstantEA, FR_GetLineUnstretchedLength, FR_GetLineFairTen, FR_GetLineMaxTen };
enum { FV_ExternalWaveKinGetCoordinates, FV_GetBodyPos, FV_GetBodyAngle, FV_GetBodyVel, FV_GetBodyAngVel, FV_GetBodyForce, FV_GetBodyM, FV_GetRodForce, FV_GetRodM, FV_GetPointPos, FV_GetPointVel, FV_GetPointForce, FV_GetPointM, FV_SetLinePressInt };
enum { FN_GetRodNodePos, FN_GetRodNodeVel, FN_GetLineNodePos, FN_GetLineNodeVel, FN_GetLineNodeForce, FN_GetLineNodeTen, FN_GetLineNodeBendStiff, FN_GetLineNodeWeight, FN_GetLineNodeDrag, FN_GetLineNodeFroudeKrilov, FN_GetLineNodeSeabedForce, FN_GetLineNodeM };
enum { FT_SetLogFile, FT_Save, FT_Load, FT_SaveVTK, FT_SaveBodyVTK, FT_UseBodyVTK, FT_SaveRodVTK, FT_SavePointVTK, FT_SaveLineVTK };
enum { FS_SetLineUnstretchedLength, FS_SetLineUnstretchedLengthVel, FS_SetLineConstantEA };
enum { FJ_SetLinePressBend, FJ_SetVerbosity, FJ_SetLogLevel };
enum { FO_GetBody, FO_GetRod, FO_GetPoint, FO_GetLine };
