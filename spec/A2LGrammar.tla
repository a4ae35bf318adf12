----------------------------- MODULE A2LGrammar -----------------------------
(***************************************************************************)
(* The grammar of ASAP2 files as supported by calibrationReader: for every *)
(* keyword its mandatory parameters in order, the list that may follow     *)
(* them, the keywords that may appear in its block, and in which field of  *)
(* the result everything has to arrive.                                    *)
(*                                                                         *)
(* The reference parser (A2LSem) interprets this grammar and the input     *)
(* generators of the conformance checks read it from here as well          *)
(* (A2LExport), so this module is the only place where it is written down. *)
(*                                                                         *)
(* Parameters are <<field, kind>>, kind being "str" (any word or string),  *)
(* "u16", "u32", "i16", "i32", "f" (numbers) or the name of an enumeration.*)
(* Keywords within a block are <<keyword, field, type, multiplicity>> with *)
(* multiplicity "1" (once), "L" (a list in the order of the file) or "M"   *)
(* (a map by the first parameter).                                         *)
(***************************************************************************)
EXTENDS TLC, Integers, Sequences

Entry(mode, end, ps, rest, need, kids) ==
  [mode |-> mode, end |-> end, ps |-> ps, rest |-> rest, need |-> need, kids |-> kids]

\* a block, closed by its end. After the parameters the entries of rest repeat:
\* need = -1: any number of times, -2: as often as the last parameter says, otherwise exactly need times
Block(end, ps, rest, need, kids) == Entry("block", end, ps, rest, need, kids)
\* a keyword that is complete with its last parameter
Attr(ps) == Entry("attr", "", ps, << >>, -1, {})
\* a keyword without parameters
FlagType == Entry("flag", "", << >>, << >>, -1, {})
\* 1 to 5 numbers, ended by the next keyword
Dims(ps) == Entry("dims", "", ps, << >>, -1, {})
\* a list without an end of its own, ended by what follows in the block around it
OpenList(rest) == Entry("open", "", << >>, rest, -1, {})
\* a name and arbitrary content up to its end
Raw(end) == Entry("raw", end, << <<"name","str">> >>, << <<"data","str">> >>, -1, {})
\* text up to its end, any: also keywords belong to it
Text(end, field, any) == Entry(IF any THEN "anytext" ELSE "text", end, << <<field,"str">> >>, << >>, -1, {})
Root(kids) == Entry("root", "", << >>, << >>, -1, kids)

Enums ==
  "DataType" :> {"UBYTE", "SBYTE", "UWORD", "SWORD", "ULONG", "SLONG", "A_UINT64", "A_INT64", "FLOAT16_IEEE", "FLOAT32_IEEE", "FLOAT64_IEEE"} @@
  "DataSize" :> {"BYTE", "WORD", "LONG"} @@
  "AddrType" :> {"PBYTE", "PWORD", "PLONG", "PLONGLONG", "DIRECT"} @@
  "ByteOrder" :> {"LITTLE_ENDIAN", "BIG_ENDIAN", "MSB_LAST", "MSB_FIRST", "MSB_FIRST_MSW_LAST", "MSB_LAST_MSW_FIRST"} @@
  "IndexOrder" :> {"INDEX_INCR", "INDEX_DECR"} @@
  "AxisAttribute" :> {"CURVE_AXIS", "COM_AXIS", "FIX_AXIS", "RES_AXIS", "STD_AXIS"} @@
  "MemoryAttribute" :> {"INTERN", "EXTERN"} @@
  "CalibrationAccess" :> {"CALIBRATION", "NO_CALIBRATION", "NOT_IN_MCD_SYSTEM", "OFFLINE_CALIBRATION"} @@
  "CharacteristicType" :> {"ASCII", "CURVE", "MAP", "CUBOID", "CUBE_4", "CUBE_5", "VAL_BLK", "VALUE"} @@
  "UnitType" :> {"DERIVED", "EXTENDED_SI"} @@
  "ConversionType" :> {"IDENTICAL", "FORM", "LINEAR", "RAT_FUNC", "TAB_INTP", "TAB_NOINTP", "TAB_VERB"} @@
  "IndexMode" :> {"ALTERNATE_CURVES", "ALTERNATE_WITH_X", "ALTERNATE_WITH_Y", "COLUMN_DIR", "ROW_DIR"} @@
  "Mode" :> {"ABSOLUTE", "DIFFERENCE"} @@
  "LayoutPrgType" :> {"PRG_CODE", "PRG_DATA", "PRG_RESERVED"} @@
  "SegmentPrgType" :> {"CALIBRATION_VARIABLES", "CODE", "DATA", "EXCLUDE_FROM_FLASH", "OFFLINE_DATA", "RESERVED", "SERAM", "VARIABLES"} @@
  "MemoryType" :> {"EEPROM", "EPROM", "FLASH", "RAM", "ROM", "REGISTER", "NOT_IN_ECU"} @@
  "MonotonyType" :> {"MON_DECREASE", "MON_INCREASE", "STRICT_DECREASE", "STRICT_INCREASE", "MONOTONOUS", "STRICT_MON", "NOT_MON"} @@
  "Tag" :> {"NUMERIC"} @@
  "Trigger" :> {"ON_CHANGE", "ON_USER_REQUEST"} @@
  "Encoding" :> {"UTF8", "UTF16", "UTF32"}

\* Values that are legal for a different enumeration of the same family: neither required nor forbidden
Tolerated ==
  "AxisAttribute" :> Enums["MemoryAttribute"] @@
  "MemoryAttribute" :> Enums["AxisAttribute"] @@
  "CharacteristicType" :> Enums["UnitType"] @@
  "UnitType" :> Enums["CharacteristicType"] @@
  "LayoutPrgType" :> Enums["SegmentPrgType"] @@
  "SegmentPrgType" :> Enums["LayoutPrgType"]

Types ==
  "A2L" :> Root({<<"ASAP2_VERSION","Asap2Version","asap2Version","1">>,
           <<"A2ML_VERSION","A2mlVersion","a2mlVersion","1">>,
           <<"/begin PROJECT","Project","Project","1">>}) @@
  "a2ml" :> Text("/end A2ML","formatSpecification",TRUE) @@
  "a2mlVersion" :> Attr(<< <<"VersionNo","u16">>, <<"UpgradeNo","u16">> >>) @@
  "addrEpk" :> Attr(<< <<"address","str">> >>) @@
  "alignmentByte" :> Attr(<< <<"AlignmentBorder","u16">> >>) @@
  "alignmentFloat16Ieee" :> Attr(<< <<"AlignmentBorder","u16">> >>) @@
  "alignmentFloat32Ieee" :> Attr(<< <<"AlignmentBorder","u16">> >>) @@
  "alignmentFloat64Ieee" :> Attr(<< <<"AlignmentBorder","u16">> >>) @@
  "alignmentInt64" :> Attr(<< <<"AlignmentBorder","u16">> >>) @@
  "alignmentLong" :> Attr(<< <<"AlignmentBorder","u16">> >>) @@
  "alignmentWord" :> Attr(<< <<"AlignmentBorder","u16">> >>) @@
  "annotation" :> Block("/end ANNOTATION", << >>, << >>, -1,
           {<<"ANNOTATION_LABEL","annotationLabel","annotationLabel","1">>,
           <<"ANNOTATION_ORIGIN","annotationOrigin","annotationOrigin","1">>,
           <<"/begin ANNOTATION_TEXT","annotationText","annotationText","L">>}) @@
  "annotationLabel" :> Attr(<< <<"label","str">> >>) @@
  "annotationOrigin" :> Attr(<< <<"origin","str">> >>) @@
  "annotationText" :> Text("/end ANNOTATION_TEXT","annotationText",FALSE) @@
  "arComponent" :> Block("/end AR_COMPONENT", << <<"componentType","str">> >>, << >>, -1,
           {<<"AR_PROTOTYPE_OF","arPrototypeOf","arPrototypeOf","1">>}) @@
  "arPrototypeOf" :> Attr(<< <<"name","str">> >>) @@
  "arraySize" :> Attr(<< <<"number","u16">> >>) @@
  "asap2Version" :> Attr(<< <<"versionNo","u16">>, <<"upgradeNo","u16">> >>) @@
  "axisDescr" :> Block("/end AXIS_DESCR", << <<"attribute","AxisAttribute">>,
           <<"inputQuantity","str">>, <<"conversion","str">>, <<"maxAxisPoints","u16">>,
           <<"lowerLimit","f">>, <<"upperLimit","f">> >>, << >>, -1,
           {<<"/begin ANNOTATION","annotation","annotation","L">>,
           <<"AXIS_PTS_REF","axisPtsRef","axisPtsRef","1">>,
           <<"BYTE_ORDER","byteOrder","ByteOrder","1">>,
           <<"CURVE_AXIS_REF","curveAxisRef","curveAxisRef","1">>,
           <<"DEPOSIT","deposit","deposit","1">>,
           <<"EXTENDED_LIMITS","extendedLimits","extendedLimits","1">>,
           <<"FIX_AXIS_PAR","fixAxisPar","fixAxisPar","1">>,
           <<"FIX_AXIS_PAR_DIST","fixAxisParDist","fixAxisParDist","1">>,
           <<"/begin FIX_AXIS_PAR_LIST","fixAxisParList","fixAxisParList","L">>,
           <<"FORMAT","format","format","1">>, <<"MAX_GRAD","maxGrad","MaxGrad","1">>,
           <<"MONOTONY","monotony","Monotony","1">>, <<"PHYS_UNIT","physUnit","physUnit","1">>,
           <<"READ_ONLY","readOnly","flag","1">>, <<"STEP_SIZE","stepSize","StepSize","1">>}) @@
  "axisPts" :> Block("/end AXIS_PTS", << <<"name","str">>, <<"longIdentifier","str">>,
           <<"address","str">>, <<"inputQuantity","str">>, <<"depositIdent","str">>,
           <<"maxDiff","f">>, <<"conversion","str">>, <<"maxAxisPoints","u16">>,
           <<"lowerLimit","f">>, <<"upperLimit","f">> >>, << >>, -1,
           {<<"/begin ANNOTATION","annotation","annotation","L">>,
           <<"BYTE_ORDER","byteOrder","ByteOrder","1">>,
           <<"CALIBRATION_ACCESS","calibrationAccess","wordCalibrationAccess","1">>,
           <<"DEPOSIT","deposit","deposit","1">>,
           <<"DISPLAY_IDENTIFIER","displayIdentifier","DisplayIdentifier","1">>,
           <<"ECU_ADDRESS_EXTENSION","ecuAddressExtension","ecuAddressExtension","1">>,
           <<"EXTENDED_LIMITS","extendedLimits","extendedLimits","1">>,
           <<"FORMAT","format","format","1">>,
           <<"/begin FUNCTION_LIST","functionList","FunctionList","L">>,
           <<"GUARD_RAILS","guardRails","flag","1">>, <<"/begin IF_DATA","ifData","IfData","L">>,
           <<"MODEL_LINK","modelLink","modelLink","1">>, <<"MONOTONY","monotony","Monotony","1">>,
           <<"PHYS_UNIT","physUnit","physUnit","1">>, <<"READ_ONLY","readOnly","flag","1">>,
           <<"REF_MEMORY_SEGMENT","refMemorySegment","refMemorySegment","1">>,
           <<"STEP_SIZE","stepSize","StepSize","1">>,
           <<"SYMBOL_LINK","symbolLink","symbolLink","1">>}) @@
  "AxisPts4" :> Attr(<< <<"Position","u16">>, <<"Datatype","DataType">>,
           <<"IndexIncr","IndexOrder">>, <<"Addressing","AddrType">> >>) @@
  "AxisPts5" :> Attr(<< <<"Position","u16">>, <<"Datatype","DataType">>,
           <<"IndexIncr","IndexOrder">>, <<"Addressing","AddrType">> >>) @@
  "axisPtsRef" :> Attr(<< <<"axisPoints","str">> >>) @@
  "AxisPtsX" :> Attr(<< <<"Position","u16">>, <<"Datatype","DataType">>,
           <<"IndexIncr","IndexOrder">>, <<"Addressing","AddrType">> >>) @@
  "AxisPtsY" :> Attr(<< <<"Position","u16">>, <<"Datatype","DataType">>,
           <<"IndexIncr","IndexOrder">>, <<"Addressing","AddrType">> >>) @@
  "AxisPtsZ" :> Attr(<< <<"Position","u16">>, <<"Datatype","DataType">>,
           <<"IndexIncr","IndexOrder">>, <<"Addressing","AddrType">> >>) @@
  "AxisRescaleX" :> Attr(<< <<"Position","u16">>, <<"Datatype","DataType">>,
           <<"MaxNumberOfRescalePairs","u16">>, <<"IndexIncr","IndexOrder">>,
           <<"Adressing","AddrType">> >>) @@
  "bitMask" :> Attr(<< <<"mask","str">> >>) @@
  "bitOperation" :> Block("/end BIT_OPERATION", << >>, << >>, -1,
           {<<"LEFT_SHIFT","leftShift","LeftShift","1">>,
           <<"RIGHT_SHIFT","rightShift","RightShift","1">>,
           <<"SIGN_EXTEND","signExtend","flag","1">>}) @@
  "blob" :> Block("/end BLOB", << <<"name","str">>, <<"longIdentifier","str">>,
           <<"address","str">>, <<"size","u32">> >>, << >>, -1,
           {<<"/begin ANNOTATION","annotation","annotation","L">>,
           <<"ADDRESS_TYPE","addressType","wordAddrType","1">>,
           <<"CALIBRATION_ACCESS","calibrationAccess","wordCalibrationAccess","1">>,
           <<"DISPLAY_IDENTIFIER","displayIdentifier","DisplayIdentifier","1">>,
           <<"ECU_ADDRESS_EXTENSION","ecuAddressExtension","ecuAddressExtension","1">>,
           <<"/begin IF_DATA","IfData","IfData","L">>,
           <<"MAX_REFRESH","maxRefresh","MaxRefresh","1">>,
           <<"MODEL_LINK","modelLink","modelLink","1">>,
           <<"SYMBOL_LINK","symbolLink","symbolLink","1">>}) @@
  "ByteOrder" :> Attr(<< <<"ByteOrder","ByteOrder">> >>) @@
  "calibrationHandle" :> Block("/end CALIBRATION_HANDLE", << >>, << <<"handle","str">> >>, -1,
           {<<"CALIBRATION_HANDLE_TEXT","calibrationHandleText","calibrationHandleText","1">>}) @@
  "calibrationHandleText" :> Attr(<< <<"text","str">> >>) @@
  "calibrationMethod" :> Block("/end CALIBRATION_METHOD", << <<"method","str">>,
           <<"version","u32">> >>, << >>, -1,
           {<<"/begin CALIBRATION_HANDLE","calibrationHandle","calibrationHandle","L">>}) @@
  "Characteristic" :> Block("/end CHARACTERISTIC", << <<"Name","str">>,
           <<"LongIdentifier","str">>, <<"Type","CharacteristicType">>, <<"Address","str">>,
           <<"Deposit","str">>, <<"maxDiff","f">>, <<"conversion","str">>, <<"lowerLimit","f">>,
           <<"upperLimit","f">> >>, << >>, -1,
           {<<"/begin ANNOTATION","annotation","annotation","L">>,
           <<"/begin AXIS_DESCR","axisDescr","axisDescr","L">>,
           <<"BIT_MASK","bitMask","bitMask","1">>, <<"BYTE_ORDER","byteOrder","ByteOrder","1">>,
           <<"CALIBRATION_ACCESS","calibrationAccess","wordCalibrationAccess","1">>,
           <<"COMPARISON_QUANTITY","comparisonQuantity","comparisonQuantity","1">>,
           <<"/begin DEPENDENT_CHARACTERISTIC","dependentCharacteristic","DependentCharacteristic","L">>,
           <<"DISCRETE","discrete","flag","1">>,
           <<"DISPLAY_IDENTIFIER","displayIdentifier","DisplayIdentifier","1">>,
           <<"ENCODING","encoding","wordEncoding","1">>,
           <<"ECU_ADDRESS_EXTENSION","ecuAddressExtension","ecuAddressExtension","1">>,
           <<"EXTENDED_LIMITS","extendedLimits","extendedLimits","1">>,
           <<"FORMAT","format","format","1">>,
           <<"/begin FUNCTION_LIST","functionList","FunctionList","L">>,
           <<"GUARD_RAILS","guardRails","flag","1">>, <<"/begin IF_DATA","ifData","IfData","L">>,
           <<"/begin MAP_LIST","mapList","MapList","L">>,
           <<"MATRIX_DIM","MatrixDim","MatrixDim","1">>,
           <<"MAX_REFRESH","maxRefresh","MaxRefresh","1">>,
           <<"MODEL_LINK","modelLink","modelLink","1">>, <<"NUMBER","number","Number","1">>,
           <<"PHYS_UNIT","physUnit","physUnit","1">>, <<"READ_ONLY","readOnly","flag","1">>,
           <<"REF_MEMORY_SEGMENT","refMemorySegment","refMemorySegment","1">>,
           <<"STEP_SIZE","stepSize","StepSize","1">>,
           <<"SYMBOL_LINK","symbolLink","symbolLink","1">>,
           <<"/begin VIRTUAL_CHARACTERISTIC","virtualCharacteristic","VirtualCharacteristic","L">>}) @@
  "Coeffs" :> Attr(<< <<"A","f">>, <<"B","f">>, <<"C","f">>, <<"D","f">>, <<"E","f">>, <<"F","f">>
           >>) @@
  "CoeffsLinear" :> Attr(<< <<"A","f">>, <<"B","f">> >>) @@
  "comparisonQuantity" :> Attr(<< <<"name","str">> >>) @@
  "CompuMethod" :> Block("/end COMPU_METHOD", << <<"Name","str">>, <<"LongIdentifier","str">>,
           <<"ConversionType","ConversionType">>, <<"Format","str">>, <<"Unit","str">> >>, << >>,
           -1, {<<"COEFFS","Coeffs","Coeffs","1">>,
           <<"COEFFS_LINEAR","CoeffsLinear","CoeffsLinear","1">>,
           <<"COMPU_TAB_REF","CompuTabRef","CompuTabRef","1">>,
           <<"/begin FORMULA","Formula","Formula","L">>, <<"REF_UNIT","RefUnit","refUnit","1">>,
           <<"STATUS_STRING_REF","StatusStringRef","StatusStringRef","1">>}) @@
  "CompuTab" :> Block("/end COMPU_TAB", << <<"Name","str">>, <<"longIdentifier","str">>,
           <<"ConversionType","ConversionType">>, <<"NumberValuePairs","u16">> >>, <<
           <<"InVal","f">>, <<"OutVal","f">> >>, -2,
           {<<"DEFAULT_VALUE","DefaultValue","DefaultValue","1">>,
           <<"DEFAULT_VALUE_NUMERIC","DefaultValueNumeric","DefaultValueNumeric","1">>}) @@
  "CompuTabRef" :> Attr(<< <<"ConversionTable","str">> >>) @@
  "CompuVTab" :> Block("/end COMPU_VTAB", << <<"Name","str">>, <<"LongIdentifier","str">>,
           <<"ConversionType","ConversionType">>, <<"NumberValuePairs","u16">> >>, <<
           <<"InVal","f">>, <<"OutVal","str">> >>, -2,
           {<<"DEFAULT_VALUE","DefaultValue","DefaultValue","1">>}) @@
  "CompuVTabRange" :> Block("/end COMPU_VTAB_RANGE", << <<"Name","str">>,
           <<"LongIdentifier","str">>, <<"NumberValueTriples","u16">> >>, << <<"InValMin","f">>,
           <<"InValMax","f">>, <<"OutVal","str">> >>, -2,
           {<<"DEFAULT_VALUE","DefaultValue","DefaultValue","1">>}) @@
  "cpuType" :> Attr(<< <<"cpu","str">> >>) @@
  "curveAxisRef" :> Attr(<< <<"curveAxis","str">> >>) @@
  "customer" :> Attr(<< <<"customer","str">> >>) @@
  "customerNo" :> Attr(<< <<"number","str">> >>) @@
  "dataSize" :> Attr(<< <<"size","u16">> >>) @@
  "DefaultValue" :> Attr(<< <<"DisplayString","str">> >>) @@
  "DefaultValueNumeric" :> Attr(<< <<"DisplayValue","f">> >>) @@
  "defCharacteristic" :> Block("/end DEF_CHARACTERISTIC", << >>, << <<"identifier","str">> >>, -1,
           {}) @@
  "DependentCharacteristic" :> Block("/end DEPENDENT_CHARACTERISTIC", << <<"formula","str">> >>,
           << <<"characteristic","str">> >>, -1, {}) @@
  "deposit" :> Attr(<< <<"mode","Mode">> >>) @@
  "DisplayIdentifier" :> Attr(<< <<"displayName","str">> >>) @@
  "DistOp4" :> Attr(<< <<"Position","u16">>, <<"Datatype","DataType">> >>) @@
  "DistOp5" :> Attr(<< <<"Position","u16">>, <<"Datatype","DataType">> >>) @@
  "DistOpX" :> Attr(<< <<"Position","u16">>, <<"Datatype","DataType">> >>) @@
  "DistOpY" :> Attr(<< <<"Position","u16">>, <<"Datatype","DataType">> >>) @@
  "DistOpZ" :> Attr(<< <<"Position","u16">>, <<"Datatype","DataType">> >>) @@
  "ecu" :> Attr(<< <<"controlUnit","str">> >>) @@
  "ecuAddress" :> Attr(<< <<"address","str">> >>) @@
  "ecuAddressExtension" :> Attr(<< <<"extension","i16">> >>) @@
  "ecuCalibrationOffset" :> Attr(<< <<"offset","str">> >>) @@
  "epk" :> Attr(<< <<"identifier","str">> >>) @@
  "errorMask" :> Attr(<< <<"mask","str">> >>) @@
  "extendedLimits" :> Attr(<< <<"lowerLimit","f">>, <<"upperLimit","f">> >>) @@
  "fixAxisPar" :> Attr(<< <<"offset","i16">>, <<"shift","i16">>, <<"numberapo","u16">> >>) @@
  "fixAxisParDist" :> Attr(<< <<"offset","i16">>, <<"distance","i16">>, <<"numberapo","u16">> >>) @@
  "fixAxisParList" :> Block("/end FIX_AXIS_PAR_LIST", << >>, << <<"axisPtsValue","f">> >>, -1, {}) @@
  "FixNoAxisPts4" :> Attr(<< <<"NumberOfAxisPoints","u16">> >>) @@
  "FixNoAxisPts5" :> Attr(<< <<"NumberOfAxisPoints","u16">> >>) @@
  "FixNoAxisPtsX" :> Attr(<< <<"NumberOfAxisPoints","u16">> >>) @@
  "FixNoAxisPtsY" :> Attr(<< <<"NumberOfAxisPoints","u16">> >>) @@
  "FixNoAxisPtsZ" :> Attr(<< <<"NumberOfAxisPoints","u16">> >>) @@
  "FncValues" :> Attr(<< <<"Position","u16">>, <<"Datatype","DataType">>,
           <<"IndexMode","IndexMode">>, <<"Addresstype","AddrType">> >>) @@
  "format" :> Attr(<< <<"formatString","str">> >>) @@
  "Formula" :> Block("/end FORMULA", << >>, << <<"fx","str">> >>, -1,
           {<<"FORMULA_INV","formulaInv","formulaInv","1">>}) @@
  "formulaInv" :> Attr(<< <<"gx","str">> >>) @@
  "frame" :> Block("/end FRAME", << <<"name","str">>, <<"longIdentifier","str">>,
           <<"scalingUnit","u16">>, <<"rate","u32">> >>, << >>, -1,
           {<<"FRAME_MEASUREMENT","frameMeasurement","frameMeasurement","1">>,
           <<"/begin IF_DATA","ifData","IfData","L">>}) @@
  "frameMeasurement" :> OpenList(<< <<"identifier","str">> >>) @@
  "function" :> Block("/end FUNCTION", << <<"name","str">>, <<"longIdentifier","str">> >>, << >>,
           -1, {<<"/begin ANNOTATION","annotation","annotation","L">>,
           <<"/begin AR_COMPONENT","arComponent","arComponent","1">>,
           <<"/begin DEF_CHARACTERISTIC","defCharacteristic","defCharacteristic","1">>,
           <<"FUNCTION_VERSION","functionVersion","functionVersion","1">>,
           <<"/begin IF_DATA","ifData","IfData","L">>,
           <<"/begin IN_MEASUREMENT","inMeasurement","inMeasurement","1">>,
           <<"/begin LOC_MEASUREMENT","locMeasurement","locMeasurement","1">>,
           <<"/begin OUT_MEASUREMENT","outMeasurement","outMeasurement","1">>,
           <<"/begin REF_CHARACTERISTIC","refCharacteristic","refCharacteristic","1">>,
           <<"/begin SUB_FUNCTION","subFunction","subFunction","1">>}) @@
  "FunctionList" :> Block("/end FUNCTION_LIST", << >>, << <<"name","str">> >>, -1, {}) @@
  "functionVersion" :> Attr(<< <<"versionIdentifier","str">> >>) @@
  "group" :> Block("/end GROUP", << <<"groupName","str">>, <<"groupLongIdentifier","str">> >>, <<
           >>, -1, {<<"/begin ANNOTATION","annotation","annotation","L">>,
           <<"/begin FUNCTION_LIST","functionList","FunctionList","1">>,
           <<"/begin IF_DATA","ifData","IfData","L">>,
           <<"/begin REF_CHARACTERISTIC","refCharacteristic","refCharacteristic","1">>,
           <<"/begin REF_MEASUREMENT","refMeasurement","refMeasurement","1">>,
           <<"ROOT","root","flag","1">>, <<"/begin SUB_GROUP","subGroup","subGroup","1">>}) @@
  "header" :> Block("/end HEADER", << <<"comment","str">> >>, << >>, -1,
           {<<"PROJECT_NO","projectNo","projectNo","1">>, <<"VERSION","version","version","1">>}) @@
  "Identification" :> Attr(<< <<"Position","u16">>, <<"Datatype","DataType">> >>) @@
  "IfData" :> Raw("/end IF_DATA") @@
  "inMeasurement" :> Block("/end IN_MEASUREMENT", << >>, << <<"identifier","str">> >>, -1, {}) @@
  "instance" :> Block("/end INSTANCE", << <<"name","str">>, <<"LongIdentifier","str">>,
           <<"typeDefName","str">>, <<"address","str">> >>, << >>, -1,
           {<<"/begin ANNOTATION","annotation","annotation","L">>,
           <<"ADDRESS_TYPE","addressType","wordAddrType","1">>,
           <<"CALIBRATION_ACCESS","calibrationAccess","wordCalibrationAccess","1">>,
           <<"DISPLAY_IDENTIFIER","displayIdentifier","DisplayIdentifier","1">>,
           <<"ECU_ADDRESS_EXTENSION","ecuAddressExtension","ecuAddressExtension","1">>,
           <<"/begin IF_DATA","ifData","IfData","L">>,
           <<"MATRIX_DIM","matrixDim","MatrixDim","1">>,
           <<"MAX_REFRESH","maxRefresh","MaxRefresh","1">>,
           <<"MODEL_LINK","modelLink","modelLink","1">>,
           <<"/begin OVERWRITE","overwrite","overwrite","1">>,
           <<"READ_WRITE","readWrite","flag","1">>,
           <<"SYMBOL_LINK","symbolLink","symbolLink","1">>}) @@
  "layout" :> Attr(<< <<"indexMode","IndexMode">> >>) @@
  "LeftShift" :> Attr(<< <<"bitcount","u32">> >>) @@
  "limits" :> Attr(<< <<"lowerLimit","f">>, <<"upperLimit","f">> >>) @@
  "locMeasurement" :> Block("/end LOC_MEASUREMENT", << >>, << <<"identifier","str">> >>, -1, {}) @@
  "MapList" :> Block("/end MAP_LIST", << >>, << <<"name","str">> >>, -1, {}) @@
  "MatrixDim" :> Dims(<< <<"DimX","u16">>, <<"DimY","u16">>, <<"DimZ","u16">>, <<"Dim4","u16">>,
           <<"Dim5","u16">> >>) @@
  "MaxGrad" :> Attr(<< <<"maxGradient","f">> >>) @@
  "MaxRefresh" :> Attr(<< <<"scalingUnit","u16">>, <<"rate","u32">> >>) @@
  "measurement" :> Block("/end MEASUREMENT", << <<"name","str">>, <<"longIdentifier","str">>,
           <<"datatype","DataType">>, <<"conversion","str">>, <<"resolution","u16">>,
           <<"accuracy","f">>, <<"lowerLimit","f">>, <<"upperLimit","f">> >>, << >>, -1,
           {<<"/begin ANNOTATION","annotation","annotation","L">>,
           <<"ARRAY_SIZE","arraySize","arraySize","1">>, <<"BIT_MASK","bitMask","bitMask","1">>,
           <<"/begin BIT_OPERATION","bitOperation","bitOperation","1">>,
           <<"BYTE_ORDER","byteOrder","ByteOrder","1">>, <<"DISCRETE","discrete","flag","1">>,
           <<"DISPLAY_IDENTIFIER","displayIdentifier","DisplayIdentifier","1">>,
           <<"ECU_ADDRESS","ecuAddress","ecuAddress","1">>,
           <<"ECU_ADDRESS_EXTENSION","ecuAddressExtension","ecuAddressExtension","1">>,
           <<"ERROR_MASK","errorMask","errorMask","1">>, <<"FORMAT","format","format","1">>,
           <<"/begin FUNCTION_LIST","functionList","FunctionList","1">>,
           <<"/begin IF_DATA","ifData","IfData","L">>, <<"LAYOUT","layout","layout","1">>,
           <<"MATRIX_DIM","matrixDim","MatrixDim","1">>,
           <<"MAX_REFRESH","maxRefresh","MaxRefresh","1">>,
           <<"MODEL_LINK","modelLink","modelLink","1">>,
           <<"PHYS_UNIT","physUnit","physUnit","1">>, <<"READ_WRITE","readWrite","flag","1">>,
           <<"REF_MEMORY_SEGMENT","refMemorySegment","refMemorySegment","1">>,
           <<"SYMBOL_LINK","symbolLink","symbolLink","1">>,
           <<"/begin VIRTUAL","virtual","virtual","1">>}) @@
  "memoryLayout" :> Block("/end MEMORY_LAYOUT", << <<"prgType","LayoutPrgType">>,
           <<"address","str">>, <<"size","str">> >>, << <<"offset","i32">> >>, 5,
           {<<"/begin IF_DATA","ifData","IfData","L">>}) @@
  "memorySegment" :> Block("/end MEMORY_SEGMENT", << <<"name","str">>, <<"longIdentifier","str">>,
           <<"prgType","SegmentPrgType">>, <<"memoryType","MemoryType">>,
           <<"attribute","MemoryAttribute">>, <<"address","str">>, <<"size","str">> >>, <<
           <<"offset","str">> >>, 5, {<<"/begin IF_DATA","ifData","IfData","L">>}) @@
  "modCommon" :> Block("/end MOD_COMMON", << <<"comment","str">> >>, << >>, -1,
           {<<"ALIGNMENT_BYTE","AlignmentByte","alignmentByte","1">>,
           <<"ALIGNMENT_FLOAT16_IEEE","AlignmentFloat16Ieee","alignmentFloat16Ieee","1">>,
           <<"ALIGNMENT_FLOAT32_IEEE","AlignmentFloat32Ieee","alignmentFloat32Ieee","1">>,
           <<"ALIGNMENT_FLOAT64_IEEE","AlignmentFloat64Ieee","alignmentFloat64Ieee","1">>,
           <<"ALIGNMENT_INT64","AlignmentInt64","alignmentInt64","1">>,
           <<"ALIGNMENT_LONG","AlignmentLong","alignmentLong","1">>,
           <<"ALIGNMENT_WORD","AlignmentWord","alignmentWord","1">>,
           <<"BYTE_ORDER","ByteOrder","ByteOrder","1">>,
           <<"DATA_SIZE","dataSize","dataSize","1">>, <<"DEPOSIT","deposit","deposit","1">>}) @@
  "modelLink" :> Attr(<< <<"modelName","str">> >>) @@
  "modPar" :> Block("/end MOD_PAR", << <<"comment","str">> >>, << >>, -1,
           {<<"ADDR_EPK","addrEpk","addrEpk","L">>,
           <<"/begin CALIBRATION_METHOD","calibrationMethod","calibrationMethod","L">>,
           <<"CPU_TYPE","cpuType","cpuType","1">>, <<"CUSTOMER","customer","customer","1">>,
           <<"CUSTOMER_NO","customerNo","customerNo","1">>, <<"ECU","ecu","ecu","1">>,
           <<"ECU_CALIBRATION_OFFSET","ecuCalibrationOffset","ecuCalibrationOffset","1">>,
           <<"EPK","epk","epk","1">>,
           <<"/begin MEMORY_LAYOUT","memoryLayout","memoryLayout","L">>,
           <<"/begin MEMORY_SEGMENT","memorySegment","memorySegment","L">>,
           <<"NO_OF_INTERFACES","noOfInterfaces","noOfInterfaces","1">>,
           <<"PHONE_NO","phoneNo","phoneNo","1">>, <<"SUPPLIER","supplier","supplier","1">>,
           <<"SYSTEM_CONSTANT","SystemConstants","SystemConstant","M">>,
           <<"USER","user","user","1">>, <<"VERSION","version","version","1">>}) @@
  "Module" :> Block("/end MODULE", << <<"Name","str">>, <<"longIdentifier","str">> >>, << >>, -1,
           {<<"/begin A2ML","a2ml","a2ml","1">>, <<"/begin AXIS_PTS","AxisPts","axisPts","M">>,
           <<"/begin BLOB","blobs","blob","M">>,
           <<"/begin CHARACTERISTIC","Characteristics","Characteristic","M">>,
           <<"/begin COMPU_METHOD","CompuMethods","CompuMethod","M">>,
           <<"/begin COMPU_TAB","CompuTabs","CompuTab","M">>,
           <<"/begin COMPU_VTAB","CompuVTabs","CompuVTab","M">>,
           <<"/begin COMPU_VTAB_RANGE","CompuVTabRanges","CompuVTabRange","M">>,
           <<"/begin FRAME","frame","frame","1">>,
           <<"/begin FUNCTION","Functions","function","M">>,
           <<"/begin GROUP","Groups","group","M">>, <<"/begin IF_DATA","ifData","IfData","M">>,
           <<"/begin INSTANCE","instances","instance","M">>,
           <<"/begin MEASUREMENT","Measurements","measurement","M">>,
           <<"/begin MOD_COMMON","ModCommon","modCommon","1">>,
           <<"/begin MOD_PAR","ModPar","modPar","1">>,
           <<"/begin RECORD_LAYOUT","RecordLayouts","RecordLayout","M">>,
           <<"/begin TRANSFORMER","transformers","transformer","M">>,
           <<"/begin TYPEDEF_AXIS","typeDefAxis","typeDefAxis","M">>,
           <<"/begin TYPEDEF_BLOB","typeDefBlobs","typeDefBlob","M">>,
           <<"/begin TYPEDEF_CHARACTERISTIC","typeDefCharacteristics","typeDefCharacteristic","M">>,
           <<"/begin TYPEDEF_MEASUREMENT","typeDefMeasurements","typeDefMeasurement","M">>,
           <<"/begin TYPEDEF_STRUCTURE","typeDefStructures","typeDefStructure","M">>,
           <<"/begin UNIT","Units","unit","M">>,
           <<"/begin USER_RIGHTS","userRights","userRights","M">>,
           <<"/begin VARIANT_CODING","variantCoding","variantCoding","1">>}) @@
  "Monotony" :> Attr(<< <<"monotony","MonotonyType">> >>) @@
  "NoAxisPts4" :> Attr(<< <<"Position","u16">>, <<"Datatype","DataType">> >>) @@
  "NoAxisPts5" :> Attr(<< <<"Position","u16">>, <<"Datatype","DataType">> >>) @@
  "NoAxisPtsX" :> Attr(<< <<"Position","u16">>, <<"Datatype","DataType">> >>) @@
  "NoAxisPtsY" :> Attr(<< <<"Position","u16">>, <<"Datatype","DataType">> >>) @@
  "NoAxisPtsZ" :> Attr(<< <<"Position","u16">>, <<"Datatype","DataType">> >>) @@
  "noOfInterfaces" :> Attr(<< <<"num","u16">> >>) @@
  "NoRescaleX" :> Attr(<< <<"Position","u16">>, <<"Datatype","DataType">> >>) @@
  "Number" :> Attr(<< <<"number","u16">> >>) @@
  "Offset4" :> Attr(<< <<"Position","u16">>, <<"Datatype","DataType">> >>) @@
  "Offset5" :> Attr(<< <<"Position","u16">>, <<"Datatype","DataType">> >>) @@
  "OffsetX" :> Attr(<< <<"Position","u16">>, <<"Datatype","DataType">> >>) @@
  "offsetY" :> Attr(<< <<"Position","u16">>, <<"Datatype","DataType">> >>) @@
  "OffsetZ" :> Attr(<< <<"Position","u16">>, <<"Datatype","DataType">> >>) @@
  "outMeasurement" :> Block("/end OUT_MEASUREMENT", << >>, << <<"identifier","str">> >>, -1, {}) @@
  "overwrite" :> Block("/end OVERWRITE", << <<"name","str">>, <<"axisNumer","u16">> >>, << >>, -1,
           {<<"CONVERSION","conversion","wordName","1">>,
           <<"EXTENDED_LIMITS","extendedLimits","extendedLimits","1">>,
           <<"FORMAT","format","format","1">>,
           <<"INPUT_QUANTITY","inputQuantity","wordName","1">>,
           <<"LIMITS","limits","limits","1">>, <<"MONOTONY","monotony","Monotony","1">>,
           <<"PHYS_UNIT","physUnit","physUnit","1">>}) @@
  "phoneNo" :> Attr(<< <<"telnum","str">> >>) @@
  "physUnit" :> Attr(<< <<"unit","str">> >>) @@
  "Project" :> Block("/end PROJECT", << <<"Name","str">>, <<"longIdentifier","str">> >>, << >>,
           -1, {<<"/begin HEADER","header","header","1">>,
           <<"/begin MODULE","Modules","Module","L">>}) @@
  "projectNo" :> Attr(<< <<"projectNumber","str">> >>) @@
  "RecordLayout" :> Block("/end RECORD_LAYOUT", << <<"Name","str">> >>, << >>, -1,
           {<<"ALIGNMENT_BYTE","AlignmentByte","alignmentByte","1">>,
           <<"ALIGNMENT_FLOAT16_IEEE","AlignmentFloat16Ieee","alignmentFloat16Ieee","1">>,
           <<"ALIGNMENT_FLOAT32_IEEE","AlignmentFloat32Ieee","alignmentFloat32Ieee","1">>,
           <<"ALIGNMENT_FLOAT64_IEEE","AlignmentFloat64Ieee","alignmentFloat64Ieee","1">>,
           <<"ALIGNMENT_INT64","AlignmentInt64","alignmentInt64","1">>,
           <<"ALIGNMENT_LONG","AlignmentLong","alignmentLong","1">>,
           <<"ALIGNMENT_WORD","AlignmentWord","alignmentWord","1">>,
           <<"AXIS_PTS_X","AxisPtsX","AxisPtsX","1">>, <<"AXIS_PTS_Y","AxisPtsY","AxisPtsY","1">>,
           <<"AXIS_PTS_Z","AxisPtsZ","AxisPtsZ","1">>, <<"AXIS_PTS_4","AxisPts4","AxisPts4","1">>,
           <<"AXIS_PTS_5","AxisPts5","AxisPts5","1">>,
           <<"AXIS_RESCALE_X","AxisRescaleX","AxisRescaleX","1">>,
           <<"DIST_OP_X","DistOpX","DistOpX","1">>, <<"DIST_OP_Y","DistOpY","DistOpY","1">>,
           <<"DIST_OP_Z","DistOpZ","DistOpZ","1">>, <<"DIST_OP_4","DistOp4","DistOp4","1">>,
           <<"DIST_OP_5","DistOp5","DistOp5","1">>,
           <<"FIX_NO_AXIS_PTS_X","FixNoAxisPtsX","FixNoAxisPtsX","1">>,
           <<"FIX_NO_AXIS_PTS_Y","FixNoAxisPtsY","FixNoAxisPtsY","1">>,
           <<"FIX_NO_AXIS_PTS_Z","FixNoAxisPtsZ","FixNoAxisPtsZ","1">>,
           <<"FIX_NO_AXIS_PTS_4","FixNoAxisPts4","FixNoAxisPts4","1">>,
           <<"FIX_NO_AXIS_PTS_5","FixNoAxisPts5","FixNoAxisPts5","1">>,
           <<"FNC_VALUES","FncValues","FncValues","1">>,
           <<"IDENTIFICATION","Identification","Identification","1">>,
           <<"NO_AXIS_PTS_X","NoAxisPtsX","NoAxisPtsX","1">>,
           <<"NO_AXIS_PTS_Y","NoAxisPtsY","NoAxisPtsY","1">>,
           <<"NO_AXIS_PTS_Z","NoAxisPtsZ","NoAxisPtsZ","1">>,
           <<"NO_AXIS_PTS_4","NoAxisPts4","NoAxisPts4","1">>,
           <<"NO_AXIS_PTS_5","NoAxisPts5","NoAxisPts5","1">>,
           <<"NO_RESCALE_X","NoRescaleX","NoRescaleX","1">>,
           <<"OFFSET_X","OffsetX","OffsetX","1">>, <<"OFFSET_Y","OffsetY","offsetY","1">>,
           <<"OFFSET_Z","OffsetZ","OffsetZ","1">>, <<"OFFSET_4","Offset4","Offset4","1">>,
           <<"OFFSET_5","Offset5","Offset5","1">>, <<"RESERVED","Reserved","Reserved","1">>,
           <<"RIP_ADDR_W","RipAddrW","RipAddrW","1">>, <<"RIP_ADDR_X","RipAddrX","ripAddrX","1">>,
           <<"RIP_ADDR_Y","RipAddrY","RipAddrY","1">>, <<"RIP_ADDR_Z","RipAddrZ","RipAddrZ","1">>,
           <<"RIP_ADDR_4","RipAddr4","RipAddr4","1">>, <<"RIP_ADDR_5","RipAddr5","RipAddr5","1">>,
           <<"SRC_ADDR_X","SrcAddrX","srcAddrX","1">>, <<"SRC_ADDR_Y","SrcAddrY","srcAddrY","1">>,
           <<"SRC_ADDR_Z","SrcAddrZ","srcAddrZ","1">>, <<"SRC_ADDR_4","SrcAddr4","srcAddr4","1">>,
           <<"SRC_ADDR_5","SrcAddr5","srcAddr5","1">>, <<"SHIFT_OP_X","ShiftOpX","ShiftOpX","1">>,
           <<"SHIFT_OP_Y","ShiftOpY","ShiftOpY","1">>, <<"SHIFT_OP_Z","ShiftOpZ","ShiftOpZ","1">>,
           <<"SHIFT_OP_4","ShiftOp4","ShiftOp4","1">>, <<"SHIFT_OP_5","ShiftOp5","ShiftOp5","1">>,
           <<"STATIC_RECORD_LAYOUT","StaticRecordLayout","flag","1">>,
           <<"STATIC_ADDRESS_OFFSETS","StaticAddressOffsets","flag","1">>}) @@
  "refCharacteristic" :> Block("/end REF_CHARACTERISTIC", << >>, << <<"identifier","str">> >>, -1,
           {}) @@
  "refGroup" :> Block("/end REF_GROUP", << >>, << <<"identifier","str">> >>, -1, {}) @@
  "refMeasurement" :> Block("/end REF_MEASUREMENT", << >>, << <<"identifier","str">> >>, -1, {}) @@
  "refMemorySegment" :> Attr(<< <<"name","str">> >>) @@
  "refUnit" :> Attr(<< <<"unit","str">> >>) @@
  "Reserved" :> Attr(<< <<"Position","u16">>, <<"DataSize","DataSize">> >>) @@
  "RightShift" :> Attr(<< <<"bitcount","u32">> >>) @@
  "RipAddr4" :> Attr(<< <<"Position","u16">>, <<"Datatype","DataType">> >>) @@
  "RipAddr5" :> Attr(<< <<"Position","u16">>, <<"Datatype","DataType">> >>) @@
  "RipAddrW" :> Attr(<< <<"Position","u16">>, <<"Datatype","DataType">> >>) @@
  "ripAddrX" :> Attr(<< <<"position","u16">>, <<"datatype","DataType">> >>) @@
  "RipAddrY" :> Attr(<< <<"Position","u16">>, <<"Datatype","DataType">> >>) @@
  "RipAddrZ" :> Attr(<< <<"Position","u16">>, <<"Datatype","DataType">> >>) @@
  "ShiftOp4" :> Attr(<< <<"Position","u16">>, <<"Datatype","DataType">> >>) @@
  "ShiftOp5" :> Attr(<< <<"Position","u16">>, <<"Datatype","DataType">> >>) @@
  "ShiftOpX" :> Attr(<< <<"Position","u16">>, <<"Datatype","DataType">> >>) @@
  "ShiftOpY" :> Attr(<< <<"Position","u16">>, <<"Datatype","DataType">> >>) @@
  "ShiftOpZ" :> Attr(<< <<"Position","u16">>, <<"Datatype","DataType">> >>) @@
  "siExponents" :> Attr(<< <<"length","i16">>, <<"mass","i16">>, <<"time","i16">>,
           <<"electricCurrent","i16">>, <<"temperature","i16">>, <<"amountOfSubstance","i16">>,
           <<"luminousIntensity","i16">> >>) @@
  "srcAddr4" :> Attr(<< <<"position","u16">>, <<"datatype","DataType">> >>) @@
  "srcAddr5" :> Attr(<< <<"position","u16">>, <<"datatype","DataType">> >>) @@
  "srcAddrX" :> Attr(<< <<"position","u16">>, <<"datatype","DataType">> >>) @@
  "srcAddrY" :> Attr(<< <<"position","u16">>, <<"datatype","DataType">> >>) @@
  "srcAddrZ" :> Attr(<< <<"position","u16">>, <<"datatype","DataType">> >>) @@
  "StatusStringRef" :> Attr(<< <<"ConversionTable","str">> >>) @@
  "StepSize" :> Attr(<< <<"stepSize","f">> >>) @@
  "structureComponent" :> Block("/end STRUCTURE_COMPONENT", << <<"name","str">>,
           <<"typeDefName","str">>, <<"addressOffset","str">> >>, << >>, -1,
           {<<"ADDRESS_TYPE","addressType","wordAddrType","1">>,
           <<"LAYOUT","layout","layout","1">>, <<"MATRIX_DIM","matrixDim","MatrixDim","1">>,
           <<"SYMBOL_TYPE_LINK","symbolTypeLink","symbolTypeLink","1">>}) @@
  "subFunction" :> Block("/end SUB_FUNCTION", << >>, << <<"identifier","str">> >>, -1, {}) @@
  "subGroup" :> Block("/end SUB_GROUP", << >>, << <<"identifier","str">> >>, -1, {}) @@
  "supplier" :> Attr(<< <<"manufacturer","str">> >>) @@
  "symbolLink" :> Attr(<< <<"symbolName","str">>, <<"offset","i32">> >>) @@
  "symbolTypeLink" :> Attr(<< <<"symbolName","str">> >>) @@
  "SystemConstant" :> Attr(<< <<"Name","str">>, <<"Value","str">> >>) @@
  "transformer" :> Block("/end TRANSFORMER", << <<"name","str">>, <<"version","str">>,
           <<"executable32","str">>, <<"executable64","str">>, <<"timeOut","u32">>,
           <<"trigger","Trigger">>, <<"inverseTransformer","str">> >>, << >>, -1,
           {<<"/begin TRANSFORMER_IN_OBJECTS","transformerInObjects","transformerInObject","1">>,
           <<"/begin TRANSFORMER_OUT_OBJECTS","transformerOutObjects","transformerOutObject","1">>}) @@
  "transformerInObject" :> Block("/end TRANSFORMER_IN_OBJECTS", << >>, << <<"identifier","str">>
           >>, -1, {}) @@
  "transformerOutObject" :> Block("/end TRANSFORMER_OUT_OBJECTS", << >>, << <<"identifier","str">>
           >>, -1, {}) @@
  "typeDefAxis" :> Block("/end TYPEDEF_AXIS", << <<"name","str">>, <<"LongIdentifier","str">>,
           <<"inputQuantity","str">>, <<"recordLayout","str">>, <<"maxDiff","f">>,
           <<"conversion","str">>, <<"maxAxisPoints","u16">>, <<"lowerLimit","f">>,
           <<"upperLimit","f">> >>, << >>, -1, {<<"BYTE_ORDER","byteOrder","ByteOrder","1">>,
           <<"DEPOSIT","deposit","deposit","1">>,
           <<"EXTENDED_LIMITS","extendedLimits","extendedLimits","1">>,
           <<"FORMAT","format","format","1">>, <<"MONOTONY","monotony","Monotony","1">>,
           <<"PHYS_UNIT","physUnit","physUnit","1">>, <<"STEP_SIZE","stepSize","StepSize","1">>}) @@
  "typeDefBlob" :> Block("/end TYPEDEF_BLOB", << <<"name","str">>, <<"longIdentifier","str">>,
           <<"size","u32">> >>, << >>, -1, {<<"ADDRESS_TYPE","addressType","wordAddrType","1">>}) @@
  "typeDefCharacteristic" :> Block("/end TYPEDEF_CHARACTERISTIC", << <<"name","str">>,
           <<"LongIdentifier","str">>, <<"Type","CharacteristicType">>, <<"recordLayout","str">>,
           <<"maxDiff","f">>, <<"conversion","str">>, <<"lowerLimit","f">>, <<"upperLimit","f">>
           >>, << >>, -1, {<<"/begin AXIS_DESCR","axisDescr","axisDescr","L">>,
           <<"BIT_MASK","bitMask","bitMask","1">>, <<"BYTE_ORDER","byteOrder","ByteOrder","1">>,
           <<"DISCRETE","discrete","flag","1">>, <<"ENCODING","encoding","wordEncoding","1">>,
           <<"EXTENDED_LIMITS","extendedLimits","extendedLimits","1">>,
           <<"FORMAT","format","format","1">>, <<"MATRIX_DIM","matrixDim","MatrixDim","1">>,
           <<"NUMBER","number","Number","1">>, <<"PHYS_UNIT","physUnit","physUnit","1">>,
           <<"STEP_SIZE","stepSize","StepSize","1">>}) @@
  "typeDefMeasurement" :> Block("/end TYPEDEF_MEASUREMENT", << <<"name","str">>,
           <<"longIdentifier","str">>, <<"datatype","DataType">>, <<"conversion","str">>,
           <<"resolution","u16">>, <<"accuracy","f">>, <<"lowerLimit","f">>, <<"upperLimit","f">>
           >>, << >>, -1, {<<"BIT_MASK","bitMask","bitMask","1">>,
           <<"/begin BIT_OPERATION","bitOperation","bitOperation","1">>,
           <<"BYTE_ORDER","byteOrder","ByteOrder","1">>, <<"DISCRETE","discrete","flag","1">>,
           <<"ERROR_MASK","errorMask","errorMask","1">>, <<"FORMAT","format","format","1">>,
           <<"LAYOUT","layout","layout","1">>, <<"MATRIX_DIM","matrixDim","MatrixDim","1">>,
           <<"PHYS_UNIT","physUnit","physUnit","1">>}) @@
  "typeDefStructure" :> Block("/end TYPEDEF_STRUCTURE", << <<"name","str">>,
           <<"longIdentifier","str">>, <<"size","u32">> >>, << >>, -1,
           {<<"ADDRESS_TYPE","addressType","wordAddrType","1">>,
           <<"CONSISTENT_EXCHANGE","consistentExchange","flag","1">>,
           <<"/begin STRUCTURE_COMPONENT","structureComponent","structureComponent","L">>,
           <<"SYMBOL_TYPE_LINK","symbolTypeLink","symbolTypeLink","1">>}) @@
  "unit" :> Block("/end UNIT", << <<"name","str">>, <<"longIdentifier","str">>,
           <<"display","str">>, <<"Type","UnitType">> >>, << >>, -1,
           {<<"REF_UNIT","refUnit","refUnit","1">>,
           <<"SI_EXPONENTS","siExponents","siExponents","1">>,
           <<"UNIT_CONVERSION","unitConversion","unitConversion","1">>}) @@
  "unitConversion" :> Attr(<< <<"gradient","f">>, <<"offset","f">> >>) @@
  "user" :> Attr(<< <<"userName","str">> >>) @@
  "userRights" :> Block("/end USER_RIGHTS", << <<"userLevelId","str">> >>, << >>, -1,
           {<<"READ_ONLY","readOnly","flag","1">>,
           <<"/begin REF_GROUP","refGroup","refGroup","L">>}) @@
  "varAddress" :> Block("/end VAR_ADDRESS", << >>, << <<"address","str">> >>, -1, {}) @@
  "varCharacteristic" :> Block("/end VAR_CHARACTERISTIC", << <<"name","str">> >>, <<
           <<"identCriterionName","str">> >>, -1,
           {<<"/begin VAR_ADDRESS","varAddress","varAddress","L">>}) @@
  "varCriterion" :> Block("/end VAR_CRITERION", << <<"name","str">>, <<"longIdentifier","str">>
           >>, << <<"value","str">> >>, -1,
           {<<"VAR_MEASUREMENT","varMeasurement","varMeasurement","1">>,
           <<"VAR_SELECTION_CHARACTERISTIC","varSelectionCharacteristic","varSelectionCharacteristic","1">>}) @@
  "varForbiddenComb" :> Block("/end VAR_FORBIDDEN_COMB", << >>, << <<"criterionName","str">>,
           <<"criterionValue","str">> >>, -1, {}) @@
  "variantCoding" :> Block("/end VARIANT_CODING", << >>, << >>, -1,
           {<<"/begin VAR_CHARACTERISTIC","varCharacteristic","varCharacteristic","L">>,
           <<"/begin VAR_CRITERION","varCriterion","varCriterion","L">>,
           <<"/begin VAR_FORBIDDEN_COMB","varForbiddenComb","varForbiddenComb","L">>,
           <<"VAR_NAMING","varNaming","varNaming","1">>,
           <<"VAR_SEPARATOR","varSeparator","varSeparator","1">>}) @@
  "varMeasurement" :> Attr(<< <<"name","str">> >>) @@
  "varNaming" :> Attr(<< <<"tag","Tag">> >>) @@
  "varSelectionCharacteristic" :> Attr(<< <<"name","str">> >>) @@
  "varSeparator" :> Attr(<< <<"separator","str">> >>) @@
  "version" :> Attr(<< <<"versionIdentifier","str">> >>) @@
  "virtual" :> Block("/end VIRTUAL", << >>, << <<"measuringChannel","str">> >>, -1, {}) @@
  "VirtualCharacteristic" :> Block("/end VIRTUAL_CHARACTERISTIC", << <<"formula","str">> >>, <<
           <<"characteristic","str">> >>, -1, {}) @@
  "wordAddrType" :> Attr(<< <<"","AddrType">> >>) @@
  "wordCalibrationAccess" :> Attr(<< <<"","CalibrationAccess">> >>) @@
  "wordEncoding" :> Attr(<< <<"","Encoding">> >>) @@
  "wordName" :> Attr(<< <<"","str">> >>) @@
  "flag" :> FlagType

\* lookup of the keyword of a block
KidMap(kids) == [t \in {k[1] : k \in kids} |-> CHOOSE k \in kids : k[1] = t]
Kids == [ty \in DOMAIN Types |-> KidMap(Types[ty].kids)]

AllKids == UNION { {k[1] : k \in Types[ty].kids} : ty \in DOMAIN Types }
AllEnds == { Types[ty].end : ty \in DOMAIN Types } \ {""}
\* RESERVED is a keyword of RECORD_LAYOUT and a value elsewhere, VAR_SEPARATOR, READ_ONLY and READ_WRITE
\* are only reserved where they are allowed
Keywords == (AllKids \cup AllEnds) \ {"RESERVED", "VAR_SEPARATOR", "READ_ONLY", "READ_WRITE"}
SoftKeywords == {"RESERVED", "VAR_SEPARATOR", "READ_ONLY", "READ_WRITE"}
=============================================================================
