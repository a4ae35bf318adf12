package main

// the structures of the result when the specification was written (verifrun -shape)
const shapeJSON = `{
 "A2L": [
  {
   "Name": "Asap2Version",
   "Kind": "struct",
   "Elem": "asap2Version"
  },
  {
   "Name": "A2mlVersion",
   "Kind": "struct",
   "Elem": "a2mlVersion"
  },
  {
   "Name": "Project",
   "Kind": "struct",
   "Elem": "Project"
  }
 ],
 "AxisPts4": [
  {
   "Name": "Position",
   "Kind": "uint16",
   "Elem": ""
  },
  {
   "Name": "PositionSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "Datatype",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "DatatypeSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "IndexIncr",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "IndexIncrSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "Addressing",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "AddressingSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "Values",
   "Kind": "interface",
   "Elem": ""
  },
  {
   "Name": "ValuesSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "AxisPts5": [
  {
   "Name": "Position",
   "Kind": "uint16",
   "Elem": ""
  },
  {
   "Name": "PositionSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "Datatype",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "DatatypeSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "IndexIncr",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "IndexIncrSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "Addressing",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "AddressingSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "Values",
   "Kind": "interface",
   "Elem": ""
  },
  {
   "Name": "ValuesSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "AxisPtsX": [
  {
   "Name": "Position",
   "Kind": "uint16",
   "Elem": ""
  },
  {
   "Name": "PositionSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "Datatype",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "DatatypeSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "IndexIncr",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "IndexIncrSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "Addressing",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "AddressingSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "Values",
   "Kind": "interface",
   "Elem": ""
  },
  {
   "Name": "ValuesSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "AxisPtsY": [
  {
   "Name": "Position",
   "Kind": "uint16",
   "Elem": ""
  },
  {
   "Name": "PositionSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "Datatype",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "DatatypeSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "IndexIncr",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "IndexIncrSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "Addressing",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "AddressingSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "Values",
   "Kind": "interface",
   "Elem": ""
  },
  {
   "Name": "ValuesSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "AxisPtsZ": [
  {
   "Name": "Position",
   "Kind": "uint16",
   "Elem": ""
  },
  {
   "Name": "PositionSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "Datatype",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "DatatypeSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "IndexIncr",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "IndexIncrSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "Addressing",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "AddressingSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "Values",
   "Kind": "interface",
   "Elem": ""
  },
  {
   "Name": "ValuesSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "AxisRescaleX": [
  {
   "Name": "Position",
   "Kind": "uint16",
   "Elem": ""
  },
  {
   "Name": "PositionSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "Datatype",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "DatatypeSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "MaxNumberOfRescalePairs",
   "Kind": "uint16",
   "Elem": ""
  },
  {
   "Name": "MaxNumberOfRescalePairsSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "IndexIncr",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "IndexIncrSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "Adressing",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "AdressingSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "ByteOrder": [
  {
   "Name": "ByteOrder",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "ByteOrderSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "Characteristic": [
  {
   "Name": "Name",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "nameSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "LongIdentifier",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "longIdentifierSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "Type",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "TypeSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "Address",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "AddressUint32",
   "Kind": "uint32",
   "Elem": ""
  },
  {
   "Name": "addressSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "Deposit",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "DepositSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "encoding",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "maxDiff",
   "Kind": "float64",
   "Elem": ""
  },
  {
   "Name": "maxDiffSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "conversion",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "conversionSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "lowerLimit",
   "Kind": "float64",
   "Elem": ""
  },
  {
   "Name": "lowerLimitSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "upperLimit",
   "Kind": "float64",
   "Elem": ""
  },
  {
   "Name": "upperLimitSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "annotation",
   "Kind": "slice",
   "Elem": "annotation"
  },
  {
   "Name": "axisDescr",
   "Kind": "slice",
   "Elem": "axisDescr"
  },
  {
   "Name": "bitMask",
   "Kind": "struct",
   "Elem": "bitMask"
  },
  {
   "Name": "byteOrder",
   "Kind": "struct",
   "Elem": "ByteOrder"
  },
  {
   "Name": "calibrationAccess",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "comparisonQuantity",
   "Kind": "struct",
   "Elem": "comparisonQuantity"
  },
  {
   "Name": "dependentCharacteristic",
   "Kind": "slice",
   "Elem": "DependentCharacteristic"
  },
  {
   "Name": "discrete",
   "Kind": "struct",
   "Elem": "discreteKeyword"
  },
  {
   "Name": "displayIdentifier",
   "Kind": "struct",
   "Elem": "DisplayIdentifier"
  },
  {
   "Name": "ecuAddressExtension",
   "Kind": "struct",
   "Elem": "ecuAddressExtension"
  },
  {
   "Name": "extendedLimits",
   "Kind": "struct",
   "Elem": "extendedLimits"
  },
  {
   "Name": "format",
   "Kind": "struct",
   "Elem": "format"
  },
  {
   "Name": "functionList",
   "Kind": "slice",
   "Elem": "FunctionList"
  },
  {
   "Name": "guardRails",
   "Kind": "struct",
   "Elem": "guardRailsKeyword"
  },
  {
   "Name": "ifData",
   "Kind": "slice",
   "Elem": "IfData"
  },
  {
   "Name": "mapList",
   "Kind": "slice",
   "Elem": "MapList"
  },
  {
   "Name": "MatrixDim",
   "Kind": "struct",
   "Elem": "MatrixDim"
  },
  {
   "Name": "maxRefresh",
   "Kind": "struct",
   "Elem": "MaxRefresh"
  },
  {
   "Name": "modelLink",
   "Kind": "struct",
   "Elem": "modelLink"
  },
  {
   "Name": "number",
   "Kind": "struct",
   "Elem": "Number"
  },
  {
   "Name": "physUnit",
   "Kind": "struct",
   "Elem": "physUnit"
  },
  {
   "Name": "readOnly",
   "Kind": "struct",
   "Elem": "readOnlyKeyword"
  },
  {
   "Name": "refMemorySegment",
   "Kind": "struct",
   "Elem": "refMemorySegment"
  },
  {
   "Name": "stepSize",
   "Kind": "struct",
   "Elem": "StepSize"
  },
  {
   "Name": "symbolLink",
   "Kind": "struct",
   "Elem": "symbolLink"
  },
  {
   "Name": "virtualCharacteristic",
   "Kind": "slice",
   "Elem": "VirtualCharacteristic"
  }
 ],
 "Coeffs": [
  {
   "Name": "A",
   "Kind": "float64",
   "Elem": ""
  },
  {
   "Name": "ASet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "B",
   "Kind": "float64",
   "Elem": ""
  },
  {
   "Name": "BSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "C",
   "Kind": "float64",
   "Elem": ""
  },
  {
   "Name": "CSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "D",
   "Kind": "float64",
   "Elem": ""
  },
  {
   "Name": "DSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "E",
   "Kind": "float64",
   "Elem": ""
  },
  {
   "Name": "ESet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "F",
   "Kind": "float64",
   "Elem": ""
  },
  {
   "Name": "FSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "CoeffsLinear": [
  {
   "Name": "A",
   "Kind": "float64",
   "Elem": ""
  },
  {
   "Name": "ASet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "B",
   "Kind": "float64",
   "Elem": ""
  },
  {
   "Name": "BSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "CompuMethod": [
  {
   "Name": "Name",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "NameSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "LongIdentifier",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "LongIdentifierSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "ConversionType",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "ConversionTypeSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "Format",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "FormatSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "Unit",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "UnitSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "Coeffs",
   "Kind": "struct",
   "Elem": "Coeffs"
  },
  {
   "Name": "CoeffsLinear",
   "Kind": "struct",
   "Elem": "CoeffsLinear"
  },
  {
   "Name": "CompuTabRef",
   "Kind": "struct",
   "Elem": "CompuTabRef"
  },
  {
   "Name": "Formula",
   "Kind": "slice",
   "Elem": "Formula"
  },
  {
   "Name": "RefUnit",
   "Kind": "struct",
   "Elem": "refUnit"
  },
  {
   "Name": "StatusStringRef",
   "Kind": "struct",
   "Elem": "StatusStringRef"
  }
 ],
 "CompuTab": [
  {
   "Name": "Name",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "NameSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "longIdentifier",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "longIdentifierSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "ConversionType",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "ConversionTypeSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "NumberValuePairs",
   "Kind": "uint16",
   "Elem": ""
  },
  {
   "Name": "NumberValuePairsSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "InVal",
   "Kind": "slice",
   "Elem": ""
  },
  {
   "Name": "InValSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "OutVal",
   "Kind": "slice",
   "Elem": ""
  },
  {
   "Name": "OutValSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "DefaultValue",
   "Kind": "struct",
   "Elem": "DefaultValue"
  },
  {
   "Name": "DefaultValueNumeric",
   "Kind": "struct",
   "Elem": "DefaultValueNumeric"
  }
 ],
 "CompuTabRef": [
  {
   "Name": "ConversionTable",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "ConversionTableSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "CompuVTab": [
  {
   "Name": "Name",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "NameSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "LongIdentifier",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "LongIdentifierSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "ConversionType",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "ConversionTypeSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "NumberValuePairs",
   "Kind": "uint16",
   "Elem": ""
  },
  {
   "Name": "NumberValuePairsSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "InVal",
   "Kind": "slice",
   "Elem": ""
  },
  {
   "Name": "InValSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "OutVal",
   "Kind": "slice",
   "Elem": ""
  },
  {
   "Name": "OutValSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "DefaultValue",
   "Kind": "struct",
   "Elem": "DefaultValue"
  }
 ],
 "CompuVTabRange": [
  {
   "Name": "Name",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "NameSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "LongIdentifier",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "LongIdentifierSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "NumberValueTriples",
   "Kind": "uint16",
   "Elem": ""
  },
  {
   "Name": "NumberValueTriplesSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "InValMin",
   "Kind": "slice",
   "Elem": ""
  },
  {
   "Name": "InValMinSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "InValMax",
   "Kind": "slice",
   "Elem": ""
  },
  {
   "Name": "InValMaxSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "OutVal",
   "Kind": "slice",
   "Elem": ""
  },
  {
   "Name": "OutValSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "DefaultValue",
   "Kind": "struct",
   "Elem": "DefaultValue"
  }
 ],
 "DefaultValue": [
  {
   "Name": "DisplayString",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "DisplayStringSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "DefaultValueNumeric": [
  {
   "Name": "DisplayValue",
   "Kind": "float64",
   "Elem": ""
  },
  {
   "Name": "DisplayValueSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "DependentCharacteristic": [
  {
   "Name": "formula",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "formulaSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "characteristic",
   "Kind": "slice",
   "Elem": ""
  },
  {
   "Name": "characteristicSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "DisplayIdentifier": [
  {
   "Name": "displayName",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "displayNameSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "DistOp4": [
  {
   "Name": "Position",
   "Kind": "uint16",
   "Elem": ""
  },
  {
   "Name": "PositionSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "Datatype",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "DatatypeSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "DistOp5": [
  {
   "Name": "Position",
   "Kind": "uint16",
   "Elem": ""
  },
  {
   "Name": "PositionSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "Datatype",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "DatatypeSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "DistOpX": [
  {
   "Name": "Position",
   "Kind": "uint16",
   "Elem": ""
  },
  {
   "Name": "PositionSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "Datatype",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "DatatypeSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "DistOpY": [
  {
   "Name": "Position",
   "Kind": "uint16",
   "Elem": ""
  },
  {
   "Name": "PositionSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "Datatype",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "DatatypeSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "DistOpZ": [
  {
   "Name": "Position",
   "Kind": "uint16",
   "Elem": ""
  },
  {
   "Name": "PositionSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "Datatype",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "DatatypeSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "FixNoAxisPts4": [
  {
   "Name": "NumberOfAxisPoints",
   "Kind": "uint16",
   "Elem": ""
  },
  {
   "Name": "NumberOfAxisPointsSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "FixNoAxisPts5": [
  {
   "Name": "NumberOfAxisPoints",
   "Kind": "uint16",
   "Elem": ""
  },
  {
   "Name": "NumberOfAxisPointsSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "FixNoAxisPtsX": [
  {
   "Name": "NumberOfAxisPoints",
   "Kind": "uint16",
   "Elem": ""
  },
  {
   "Name": "NumberOfAxisPointsSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "FixNoAxisPtsY": [
  {
   "Name": "NumberOfAxisPoints",
   "Kind": "uint16",
   "Elem": ""
  },
  {
   "Name": "NumberOfAxisPointsSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "FixNoAxisPtsZ": [
  {
   "Name": "NumberOfAxisPoints",
   "Kind": "uint16",
   "Elem": ""
  },
  {
   "Name": "NumberOfAxisPointsSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "FncValues": [
  {
   "Name": "Position",
   "Kind": "uint16",
   "Elem": ""
  },
  {
   "Name": "PositionSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "Datatype",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "DatatypeSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "IndexMode",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "IndexModeSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "Addresstype",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "AddresstypeSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "Formula": [
  {
   "Name": "fx",
   "Kind": "slice",
   "Elem": ""
  },
  {
   "Name": "fxSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "formulaInv",
   "Kind": "struct",
   "Elem": "formulaInv"
  }
 ],
 "FunctionList": [
  {
   "Name": "name",
   "Kind": "slice",
   "Elem": ""
  },
  {
   "Name": "nameSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "Identification": [
  {
   "Name": "Position",
   "Kind": "uint16",
   "Elem": ""
  },
  {
   "Name": "PositionSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "Datatype",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "DatatypeSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "IfData": [
  {
   "Name": "name",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "nameSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "data",
   "Kind": "slice",
   "Elem": ""
  },
  {
   "Name": "dataSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "LeftShift": [
  {
   "Name": "bitcount",
   "Kind": "uint32",
   "Elem": ""
  },
  {
   "Name": "bitcountSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "MapList": [
  {
   "Name": "name",
   "Kind": "slice",
   "Elem": ""
  },
  {
   "Name": "nameSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "MatrixDim": [
  {
   "Name": "DimX",
   "Kind": "uint16",
   "Elem": ""
  },
  {
   "Name": "DimXSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "DimY",
   "Kind": "uint16",
   "Elem": ""
  },
  {
   "Name": "DimYSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "DimZ",
   "Kind": "uint16",
   "Elem": ""
  },
  {
   "Name": "DimZSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "Dim4",
   "Kind": "uint16",
   "Elem": ""
  },
  {
   "Name": "Dim4Set",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "Dim5",
   "Kind": "uint16",
   "Elem": ""
  },
  {
   "Name": "Dim5Set",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "MaxGrad": [
  {
   "Name": "maxGradient",
   "Kind": "float64",
   "Elem": ""
  },
  {
   "Name": "maxGradientSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "MaxRefresh": [
  {
   "Name": "scalingUnit",
   "Kind": "uint16",
   "Elem": ""
  },
  {
   "Name": "scalingUnitSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "rate",
   "Kind": "uint32",
   "Elem": ""
  },
  {
   "Name": "rateSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "Module": [
  {
   "Name": "Name",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "nameSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "longIdentifier",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "longIdentifierSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "a2ml",
   "Kind": "struct",
   "Elem": "a2ml"
  },
  {
   "Name": "errors",
   "Kind": "slice",
   "Elem": ""
  },
  {
   "Name": "AxisPts",
   "Kind": "map",
   "Elem": "axisPts"
  },
  {
   "Name": "blobs",
   "Kind": "map",
   "Elem": "blob"
  },
  {
   "Name": "Characteristics",
   "Kind": "map",
   "Elem": "Characteristic"
  },
  {
   "Name": "CompuMethods",
   "Kind": "map",
   "Elem": "CompuMethod"
  },
  {
   "Name": "CompuTabs",
   "Kind": "map",
   "Elem": "CompuTab"
  },
  {
   "Name": "CompuVTabs",
   "Kind": "map",
   "Elem": "CompuVTab"
  },
  {
   "Name": "CompuVTabRanges",
   "Kind": "map",
   "Elem": "CompuVTabRange"
  },
  {
   "Name": "frame",
   "Kind": "struct",
   "Elem": "frame"
  },
  {
   "Name": "Functions",
   "Kind": "map",
   "Elem": "function"
  },
  {
   "Name": "Groups",
   "Kind": "map",
   "Elem": "group"
  },
  {
   "Name": "ifData",
   "Kind": "map",
   "Elem": "IfData"
  },
  {
   "Name": "instances",
   "Kind": "map",
   "Elem": "instance"
  },
  {
   "Name": "Measurements",
   "Kind": "map",
   "Elem": "measurement"
  },
  {
   "Name": "ModCommon",
   "Kind": "struct",
   "Elem": "modCommon"
  },
  {
   "Name": "ModPar",
   "Kind": "struct",
   "Elem": "modPar"
  },
  {
   "Name": "RecordLayouts",
   "Kind": "map",
   "Elem": "RecordLayout"
  },
  {
   "Name": "transformers",
   "Kind": "map",
   "Elem": "transformer"
  },
  {
   "Name": "typeDefAxis",
   "Kind": "map",
   "Elem": "typeDefAxis"
  },
  {
   "Name": "typeDefBlobs",
   "Kind": "map",
   "Elem": "typeDefBlob"
  },
  {
   "Name": "typeDefCharacteristics",
   "Kind": "map",
   "Elem": "typeDefCharacteristic"
  },
  {
   "Name": "typeDefMeasurements",
   "Kind": "map",
   "Elem": "typeDefMeasurement"
  },
  {
   "Name": "typeDefStructures",
   "Kind": "map",
   "Elem": "typeDefStructure"
  },
  {
   "Name": "Units",
   "Kind": "map",
   "Elem": "unit"
  },
  {
   "Name": "userRights",
   "Kind": "map",
   "Elem": "userRights"
  },
  {
   "Name": "variantCoding",
   "Kind": "struct",
   "Elem": "variantCoding"
  }
 ],
 "Monotony": [
  {
   "Name": "monotony",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "monotonySet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "NoAxisPts4": [
  {
   "Name": "Position",
   "Kind": "uint16",
   "Elem": ""
  },
  {
   "Name": "PositionSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "Datatype",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "DatatypeSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "NoAxisPts5": [
  {
   "Name": "Position",
   "Kind": "uint16",
   "Elem": ""
  },
  {
   "Name": "PositionSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "Datatype",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "DatatypeSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "NoAxisPtsX": [
  {
   "Name": "Position",
   "Kind": "uint16",
   "Elem": ""
  },
  {
   "Name": "PositionSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "Datatype",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "DatatypeSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "NoAxisPtsY": [
  {
   "Name": "Position",
   "Kind": "uint16",
   "Elem": ""
  },
  {
   "Name": "PositionSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "Datatype",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "DatatypeSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "NoAxisPtsZ": [
  {
   "Name": "Position",
   "Kind": "uint16",
   "Elem": ""
  },
  {
   "Name": "PositionSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "Datatype",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "DatatypeSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "NoRescaleX": [
  {
   "Name": "Position",
   "Kind": "uint16",
   "Elem": ""
  },
  {
   "Name": "PositionSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "Datatype",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "DatatypeSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "Number": [
  {
   "Name": "number",
   "Kind": "uint16",
   "Elem": ""
  },
  {
   "Name": "numberSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "Offset4": [
  {
   "Name": "Position",
   "Kind": "uint16",
   "Elem": ""
  },
  {
   "Name": "PositionSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "Datatype",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "DatatypeSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "Offset5": [
  {
   "Name": "Position",
   "Kind": "uint16",
   "Elem": ""
  },
  {
   "Name": "PositionSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "Datatype",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "DatatypeSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "OffsetX": [
  {
   "Name": "Position",
   "Kind": "uint16",
   "Elem": ""
  },
  {
   "Name": "PositionSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "Datatype",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "DatatypeSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "OffsetZ": [
  {
   "Name": "Position",
   "Kind": "uint16",
   "Elem": ""
  },
  {
   "Name": "PositionSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "Datatype",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "DatatypeSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "Project": [
  {
   "Name": "Name",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "nameSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "longIdentifier",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "longIdentifierSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "header",
   "Kind": "struct",
   "Elem": "header"
  },
  {
   "Name": "Modules",
   "Kind": "slice",
   "Elem": "Module"
  }
 ],
 "RecordLayout": [
  {
   "Name": "Name",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "NameSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "AlignmentByte",
   "Kind": "struct",
   "Elem": "alignmentByte"
  },
  {
   "Name": "AlignmentFloat16Ieee",
   "Kind": "struct",
   "Elem": "alignmentFloat16Ieee"
  },
  {
   "Name": "AlignmentFloat32Ieee",
   "Kind": "struct",
   "Elem": "alignmentFloat32Ieee"
  },
  {
   "Name": "AlignmentFloat64Ieee",
   "Kind": "struct",
   "Elem": "alignmentFloat64Ieee"
  },
  {
   "Name": "AlignmentInt64",
   "Kind": "struct",
   "Elem": "alignmentInt64"
  },
  {
   "Name": "AlignmentLong",
   "Kind": "struct",
   "Elem": "alignmentLong"
  },
  {
   "Name": "AlignmentWord",
   "Kind": "struct",
   "Elem": "alignmentWord"
  },
  {
   "Name": "AxisPtsX",
   "Kind": "struct",
   "Elem": "AxisPtsX"
  },
  {
   "Name": "AxisPtsY",
   "Kind": "struct",
   "Elem": "AxisPtsY"
  },
  {
   "Name": "AxisPtsZ",
   "Kind": "struct",
   "Elem": "AxisPtsZ"
  },
  {
   "Name": "AxisPts4",
   "Kind": "struct",
   "Elem": "AxisPts4"
  },
  {
   "Name": "AxisPts5",
   "Kind": "struct",
   "Elem": "AxisPts5"
  },
  {
   "Name": "AxisRescaleX",
   "Kind": "struct",
   "Elem": "AxisRescaleX"
  },
  {
   "Name": "DistOpX",
   "Kind": "struct",
   "Elem": "DistOpX"
  },
  {
   "Name": "DistOpY",
   "Kind": "struct",
   "Elem": "DistOpY"
  },
  {
   "Name": "DistOpZ",
   "Kind": "struct",
   "Elem": "DistOpZ"
  },
  {
   "Name": "DistOp4",
   "Kind": "struct",
   "Elem": "DistOp4"
  },
  {
   "Name": "DistOp5",
   "Kind": "struct",
   "Elem": "DistOp5"
  },
  {
   "Name": "FixNoAxisPtsX",
   "Kind": "struct",
   "Elem": "FixNoAxisPtsX"
  },
  {
   "Name": "FixNoAxisPtsY",
   "Kind": "struct",
   "Elem": "FixNoAxisPtsY"
  },
  {
   "Name": "FixNoAxisPtsZ",
   "Kind": "struct",
   "Elem": "FixNoAxisPtsZ"
  },
  {
   "Name": "FixNoAxisPts4",
   "Kind": "struct",
   "Elem": "FixNoAxisPts4"
  },
  {
   "Name": "FixNoAxisPts5",
   "Kind": "struct",
   "Elem": "FixNoAxisPts5"
  },
  {
   "Name": "FncValues",
   "Kind": "struct",
   "Elem": "FncValues"
  },
  {
   "Name": "Identification",
   "Kind": "struct",
   "Elem": "Identification"
  },
  {
   "Name": "NoAxisPtsX",
   "Kind": "struct",
   "Elem": "NoAxisPtsX"
  },
  {
   "Name": "NoAxisPtsY",
   "Kind": "struct",
   "Elem": "NoAxisPtsY"
  },
  {
   "Name": "NoAxisPtsZ",
   "Kind": "struct",
   "Elem": "NoAxisPtsZ"
  },
  {
   "Name": "NoAxisPts4",
   "Kind": "struct",
   "Elem": "NoAxisPts4"
  },
  {
   "Name": "NoAxisPts5",
   "Kind": "struct",
   "Elem": "NoAxisPts5"
  },
  {
   "Name": "NoRescaleX",
   "Kind": "struct",
   "Elem": "NoRescaleX"
  },
  {
   "Name": "OffsetX",
   "Kind": "struct",
   "Elem": "OffsetX"
  },
  {
   "Name": "OffsetY",
   "Kind": "struct",
   "Elem": "offsetY"
  },
  {
   "Name": "OffsetZ",
   "Kind": "struct",
   "Elem": "OffsetZ"
  },
  {
   "Name": "Offset4",
   "Kind": "struct",
   "Elem": "Offset4"
  },
  {
   "Name": "Offset5",
   "Kind": "struct",
   "Elem": "Offset5"
  },
  {
   "Name": "Reserved",
   "Kind": "struct",
   "Elem": "Reserved"
  },
  {
   "Name": "RipAddrW",
   "Kind": "struct",
   "Elem": "RipAddrW"
  },
  {
   "Name": "RipAddrX",
   "Kind": "struct",
   "Elem": "ripAddrX"
  },
  {
   "Name": "RipAddrY",
   "Kind": "struct",
   "Elem": "RipAddrY"
  },
  {
   "Name": "RipAddrZ",
   "Kind": "struct",
   "Elem": "RipAddrZ"
  },
  {
   "Name": "RipAddr4",
   "Kind": "struct",
   "Elem": "RipAddr4"
  },
  {
   "Name": "RipAddr5",
   "Kind": "struct",
   "Elem": "RipAddr5"
  },
  {
   "Name": "SrcAddrX",
   "Kind": "struct",
   "Elem": "srcAddrX"
  },
  {
   "Name": "SrcAddrY",
   "Kind": "struct",
   "Elem": "srcAddrY"
  },
  {
   "Name": "SrcAddrZ",
   "Kind": "struct",
   "Elem": "srcAddrZ"
  },
  {
   "Name": "SrcAddr4",
   "Kind": "struct",
   "Elem": "srcAddr4"
  },
  {
   "Name": "SrcAddr5",
   "Kind": "struct",
   "Elem": "srcAddr5"
  },
  {
   "Name": "ShiftOpX",
   "Kind": "struct",
   "Elem": "ShiftOpX"
  },
  {
   "Name": "ShiftOpY",
   "Kind": "struct",
   "Elem": "ShiftOpY"
  },
  {
   "Name": "ShiftOpZ",
   "Kind": "struct",
   "Elem": "ShiftOpZ"
  },
  {
   "Name": "ShiftOp4",
   "Kind": "struct",
   "Elem": "ShiftOp4"
  },
  {
   "Name": "ShiftOp5",
   "Kind": "struct",
   "Elem": "ShiftOp5"
  },
  {
   "Name": "StaticRecordLayout",
   "Kind": "struct",
   "Elem": "staticRecordLayoutKeyword"
  },
  {
   "Name": "StaticAddressOffsets",
   "Kind": "struct",
   "Elem": "staticAddressOffsetsKeyword"
  },
  {
   "Name": "RelativePositions",
   "Kind": "map",
   "Elem": ""
  }
 ],
 "Reserved": [
  {
   "Name": "Position",
   "Kind": "uint16",
   "Elem": ""
  },
  {
   "Name": "PositionSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "DataSize",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "DataSizeSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "RightShift": [
  {
   "Name": "bitcount",
   "Kind": "uint32",
   "Elem": ""
  },
  {
   "Name": "bitcountSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "RipAddr4": [
  {
   "Name": "Position",
   "Kind": "uint16",
   "Elem": ""
  },
  {
   "Name": "PositionSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "Datatype",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "DatatypeSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "RipAddr5": [
  {
   "Name": "Position",
   "Kind": "uint16",
   "Elem": ""
  },
  {
   "Name": "PositionSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "Datatype",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "DatatypeSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "RipAddrW": [
  {
   "Name": "Position",
   "Kind": "uint16",
   "Elem": ""
  },
  {
   "Name": "PositionSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "Datatype",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "DatatypeSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "RipAddrY": [
  {
   "Name": "Position",
   "Kind": "uint16",
   "Elem": ""
  },
  {
   "Name": "PositionSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "Datatype",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "DatatypeSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "RipAddrZ": [
  {
   "Name": "Position",
   "Kind": "uint16",
   "Elem": ""
  },
  {
   "Name": "PositionSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "Datatype",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "DatatypeSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "ShiftOp4": [
  {
   "Name": "Position",
   "Kind": "uint16",
   "Elem": ""
  },
  {
   "Name": "PositionSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "Datatype",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "DatatypeSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "ShiftOp5": [
  {
   "Name": "Position",
   "Kind": "uint16",
   "Elem": ""
  },
  {
   "Name": "PositionSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "Datatype",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "DatatypeSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "ShiftOpX": [
  {
   "Name": "Position",
   "Kind": "uint16",
   "Elem": ""
  },
  {
   "Name": "PositionSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "Datatype",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "DatatypeSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "ShiftOpY": [
  {
   "Name": "Position",
   "Kind": "uint16",
   "Elem": ""
  },
  {
   "Name": "PositionSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "Datatype",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "DatatypeSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "ShiftOpZ": [
  {
   "Name": "Position",
   "Kind": "uint16",
   "Elem": ""
  },
  {
   "Name": "PositionSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "Datatype",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "DatatypeSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "SignExtendKeyword": [
  {
   "Name": "value",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "valueSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "StatusStringRef": [
  {
   "Name": "ConversionTable",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "ConversionTableSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "StepSize": [
  {
   "Name": "stepSize",
   "Kind": "float64",
   "Elem": ""
  },
  {
   "Name": "stepSizeSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "SystemConstant": [
  {
   "Name": "Name",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "NameSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "Value",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "ValueSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "VirtualCharacteristic": [
  {
   "Name": "formula",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "formulaSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "characteristic",
   "Kind": "slice",
   "Elem": ""
  },
  {
   "Name": "characteristicSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "a2ml": [
  {
   "Name": "formatSpecification",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "formatSpecificationSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "a2mlVersion": [
  {
   "Name": "VersionNo",
   "Kind": "uint16",
   "Elem": ""
  },
  {
   "Name": "versionNoSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "UpgradeNo",
   "Kind": "uint16",
   "Elem": ""
  },
  {
   "Name": "upgradeNoSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "addrEpk": [
  {
   "Name": "address",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "addressSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "alignmentByte": [
  {
   "Name": "AlignmentBorder",
   "Kind": "uint16",
   "Elem": ""
  },
  {
   "Name": "AlignmentBorderSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "alignmentFloat16Ieee": [
  {
   "Name": "AlignmentBorder",
   "Kind": "uint16",
   "Elem": ""
  },
  {
   "Name": "AlignmentBorderSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "alignmentFloat32Ieee": [
  {
   "Name": "AlignmentBorder",
   "Kind": "uint16",
   "Elem": ""
  },
  {
   "Name": "AlignmentBorderSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "alignmentFloat64Ieee": [
  {
   "Name": "AlignmentBorder",
   "Kind": "uint16",
   "Elem": ""
  },
  {
   "Name": "AlignmentBorderSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "alignmentInt64": [
  {
   "Name": "AlignmentBorder",
   "Kind": "uint16",
   "Elem": ""
  },
  {
   "Name": "AlignmentBorderSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "alignmentLong": [
  {
   "Name": "AlignmentBorder",
   "Kind": "uint16",
   "Elem": ""
  },
  {
   "Name": "AlignmentBorderSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "alignmentWord": [
  {
   "Name": "AlignmentBorder",
   "Kind": "uint16",
   "Elem": ""
  },
  {
   "Name": "AlignmentBorderSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "annotation": [
  {
   "Name": "annotationLabel",
   "Kind": "struct",
   "Elem": "annotationLabel"
  },
  {
   "Name": "annotationOrigin",
   "Kind": "struct",
   "Elem": "annotationOrigin"
  },
  {
   "Name": "annotationText",
   "Kind": "slice",
   "Elem": "annotationText"
  }
 ],
 "annotationLabel": [
  {
   "Name": "label",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "labelSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "annotationOrigin": [
  {
   "Name": "origin",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "originSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "annotationText": [
  {
   "Name": "annotationText",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "annotationTextSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "arComponent": [
  {
   "Name": "componentType",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "componentTypeSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "arPrototypeOf",
   "Kind": "struct",
   "Elem": "arPrototypeOf"
  }
 ],
 "arPrototypeOf": [
  {
   "Name": "name",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "nameSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "arraySize": [
  {
   "Name": "number",
   "Kind": "uint16",
   "Elem": ""
  },
  {
   "Name": "numberSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "asap2Version": [
  {
   "Name": "versionNo",
   "Kind": "uint16",
   "Elem": ""
  },
  {
   "Name": "versionNoSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "upgradeNo",
   "Kind": "uint16",
   "Elem": ""
  },
  {
   "Name": "upgradeNoSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "axisDescr": [
  {
   "Name": "attribute",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "attributeSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "inputQuantity",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "inputQuantitySet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "conversion",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "conversionSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "maxAxisPoints",
   "Kind": "uint16",
   "Elem": ""
  },
  {
   "Name": "maxAxisPointsSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "lowerLimit",
   "Kind": "float64",
   "Elem": ""
  },
  {
   "Name": "lowerLimitSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "upperLimit",
   "Kind": "float64",
   "Elem": ""
  },
  {
   "Name": "upperLimitSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "annotation",
   "Kind": "slice",
   "Elem": "annotation"
  },
  {
   "Name": "axisPtsRef",
   "Kind": "struct",
   "Elem": "axisPtsRef"
  },
  {
   "Name": "byteOrder",
   "Kind": "struct",
   "Elem": "ByteOrder"
  },
  {
   "Name": "curveAxisRef",
   "Kind": "struct",
   "Elem": "curveAxisRef"
  },
  {
   "Name": "deposit",
   "Kind": "struct",
   "Elem": "deposit"
  },
  {
   "Name": "extendedLimits",
   "Kind": "struct",
   "Elem": "extendedLimits"
  },
  {
   "Name": "fixAxisPar",
   "Kind": "struct",
   "Elem": "fixAxisPar"
  },
  {
   "Name": "fixAxisParDist",
   "Kind": "struct",
   "Elem": "fixAxisParDist"
  },
  {
   "Name": "fixAxisParList",
   "Kind": "slice",
   "Elem": "fixAxisParList"
  },
  {
   "Name": "format",
   "Kind": "struct",
   "Elem": "format"
  },
  {
   "Name": "maxGrad",
   "Kind": "struct",
   "Elem": "MaxGrad"
  },
  {
   "Name": "monotony",
   "Kind": "struct",
   "Elem": "Monotony"
  },
  {
   "Name": "physUnit",
   "Kind": "struct",
   "Elem": "physUnit"
  },
  {
   "Name": "readOnly",
   "Kind": "struct",
   "Elem": "readOnlyKeyword"
  },
  {
   "Name": "stepSize",
   "Kind": "struct",
   "Elem": "StepSize"
  }
 ],
 "axisPts": [
  {
   "Name": "name",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "nameSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "longIdentifier",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "longIdentifierSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "address",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "addressSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "inputQuantity",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "inputQuantitySet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "depositIdent",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "depositIdentSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "maxDiff",
   "Kind": "float64",
   "Elem": ""
  },
  {
   "Name": "maxDiffSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "conversion",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "conversionSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "maxAxisPoints",
   "Kind": "uint16",
   "Elem": ""
  },
  {
   "Name": "maxAxisPointsSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "lowerLimit",
   "Kind": "float64",
   "Elem": ""
  },
  {
   "Name": "lowerLimitSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "upperLimit",
   "Kind": "float64",
   "Elem": ""
  },
  {
   "Name": "upperLimitSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "annotation",
   "Kind": "slice",
   "Elem": "annotation"
  },
  {
   "Name": "byteOrder",
   "Kind": "struct",
   "Elem": "ByteOrder"
  },
  {
   "Name": "calibrationAccess",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "deposit",
   "Kind": "struct",
   "Elem": "deposit"
  },
  {
   "Name": "displayIdentifier",
   "Kind": "struct",
   "Elem": "DisplayIdentifier"
  },
  {
   "Name": "ecuAddressExtension",
   "Kind": "struct",
   "Elem": "ecuAddressExtension"
  },
  {
   "Name": "extendedLimits",
   "Kind": "struct",
   "Elem": "extendedLimits"
  },
  {
   "Name": "format",
   "Kind": "struct",
   "Elem": "format"
  },
  {
   "Name": "functionList",
   "Kind": "slice",
   "Elem": "FunctionList"
  },
  {
   "Name": "guardRails",
   "Kind": "struct",
   "Elem": "guardRailsKeyword"
  },
  {
   "Name": "ifData",
   "Kind": "slice",
   "Elem": "IfData"
  },
  {
   "Name": "monotony",
   "Kind": "struct",
   "Elem": "Monotony"
  },
  {
   "Name": "modelLink",
   "Kind": "struct",
   "Elem": "modelLink"
  },
  {
   "Name": "physUnit",
   "Kind": "struct",
   "Elem": "physUnit"
  },
  {
   "Name": "readOnly",
   "Kind": "struct",
   "Elem": "readOnlyKeyword"
  },
  {
   "Name": "refMemorySegment",
   "Kind": "struct",
   "Elem": "refMemorySegment"
  },
  {
   "Name": "stepSize",
   "Kind": "struct",
   "Elem": "StepSize"
  },
  {
   "Name": "symbolLink",
   "Kind": "struct",
   "Elem": "symbolLink"
  }
 ],
 "axisPtsRef": [
  {
   "Name": "axisPoints",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "axisPointsSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "bitMask": [
  {
   "Name": "mask",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "maskSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "bitOperation": [
  {
   "Name": "leftShift",
   "Kind": "struct",
   "Elem": "LeftShift"
  },
  {
   "Name": "rightShift",
   "Kind": "struct",
   "Elem": "RightShift"
  },
  {
   "Name": "signExtend",
   "Kind": "struct",
   "Elem": "SignExtendKeyword"
  }
 ],
 "blob": [
  {
   "Name": "name",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "nameSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "longIdentifier",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "longIdentifierSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "address",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "addressSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "size",
   "Kind": "uint32",
   "Elem": ""
  },
  {
   "Name": "sizeSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "addressType",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "addressTypeSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "annotation",
   "Kind": "slice",
   "Elem": "annotation"
  },
  {
   "Name": "calibrationAccess",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "displayIdentifier",
   "Kind": "struct",
   "Elem": "DisplayIdentifier"
  },
  {
   "Name": "ecuAddressExtension",
   "Kind": "struct",
   "Elem": "ecuAddressExtension"
  },
  {
   "Name": "IfData",
   "Kind": "slice",
   "Elem": "IfData"
  },
  {
   "Name": "maxRefresh",
   "Kind": "struct",
   "Elem": "MaxRefresh"
  },
  {
   "Name": "modelLink",
   "Kind": "struct",
   "Elem": "modelLink"
  },
  {
   "Name": "symbolLink",
   "Kind": "struct",
   "Elem": "symbolLink"
  }
 ],
 "calibrationHandle": [
  {
   "Name": "handle",
   "Kind": "slice",
   "Elem": ""
  },
  {
   "Name": "handleSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "calibrationHandleText",
   "Kind": "struct",
   "Elem": "calibrationHandleText"
  }
 ],
 "calibrationHandleText": [
  {
   "Name": "text",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "textSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "calibrationMethod": [
  {
   "Name": "method",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "methodSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "version",
   "Kind": "uint32",
   "Elem": ""
  },
  {
   "Name": "versionSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "calibrationHandle",
   "Kind": "slice",
   "Elem": "calibrationHandle"
  }
 ],
 "comparisonQuantity": [
  {
   "Name": "name",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "nameSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "consistentExchangeKeyword": [
  {
   "Name": "value",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "valueSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "cpuType": [
  {
   "Name": "cpu",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "cpuSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "curveAxisRef": [
  {
   "Name": "curveAxis",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "curveAxisSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "customer": [
  {
   "Name": "customer",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "customerSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "customerNo": [
  {
   "Name": "number",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "numberSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "dataSize": [
  {
   "Name": "size",
   "Kind": "uint16",
   "Elem": ""
  },
  {
   "Name": "sizeSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "defCharacteristic": [
  {
   "Name": "identifier",
   "Kind": "slice",
   "Elem": ""
  },
  {
   "Name": "identifierSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "deposit": [
  {
   "Name": "mode",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "modeSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "discreteKeyword": [
  {
   "Name": "value",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "valueSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "ecu": [
  {
   "Name": "controlUnit",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "controlUnitSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "ecuAddress": [
  {
   "Name": "address",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "addressSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "ecuAddressExtension": [
  {
   "Name": "extension",
   "Kind": "int16",
   "Elem": ""
  },
  {
   "Name": "extensionSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "ecuCalibrationOffset": [
  {
   "Name": "offset",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "offsetSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "epk": [
  {
   "Name": "identifier",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "identifierSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "errorMask": [
  {
   "Name": "mask",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "maskSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "extendedLimits": [
  {
   "Name": "lowerLimit",
   "Kind": "float64",
   "Elem": ""
  },
  {
   "Name": "lowerLimitSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "upperLimit",
   "Kind": "float64",
   "Elem": ""
  },
  {
   "Name": "upperLimitSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "fixAxisPar": [
  {
   "Name": "offset",
   "Kind": "int16",
   "Elem": ""
  },
  {
   "Name": "offsetSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "shift",
   "Kind": "int16",
   "Elem": ""
  },
  {
   "Name": "shiftSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "numberapo",
   "Kind": "uint16",
   "Elem": ""
  },
  {
   "Name": "numberapoSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "fixAxisParDist": [
  {
   "Name": "offset",
   "Kind": "int16",
   "Elem": ""
  },
  {
   "Name": "offsetSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "distance",
   "Kind": "int16",
   "Elem": ""
  },
  {
   "Name": "distanceSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "numberapo",
   "Kind": "uint16",
   "Elem": ""
  },
  {
   "Name": "numberapoSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "fixAxisParList": [
  {
   "Name": "axisPtsValue",
   "Kind": "slice",
   "Elem": ""
  },
  {
   "Name": "axisPtsValueSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "format": [
  {
   "Name": "formatString",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "formatStringSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "formulaInv": [
  {
   "Name": "gx",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "gxSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "frame": [
  {
   "Name": "name",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "nameSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "longIdentifier",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "longIdentifierSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "scalingUnit",
   "Kind": "uint16",
   "Elem": ""
  },
  {
   "Name": "scalingUnitSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "rate",
   "Kind": "uint32",
   "Elem": ""
  },
  {
   "Name": "rateSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "frameMeasurement",
   "Kind": "struct",
   "Elem": "frameMeasurement"
  },
  {
   "Name": "ifData",
   "Kind": "slice",
   "Elem": "IfData"
  }
 ],
 "frameMeasurement": [
  {
   "Name": "identifier",
   "Kind": "slice",
   "Elem": ""
  },
  {
   "Name": "identifierSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "function": [
  {
   "Name": "name",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "nameSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "longIdentifier",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "longIdentifierSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "annotation",
   "Kind": "slice",
   "Elem": "annotation"
  },
  {
   "Name": "arComponent",
   "Kind": "struct",
   "Elem": "arComponent"
  },
  {
   "Name": "defCharacteristic",
   "Kind": "struct",
   "Elem": "defCharacteristic"
  },
  {
   "Name": "functionVersion",
   "Kind": "struct",
   "Elem": "functionVersion"
  },
  {
   "Name": "ifData",
   "Kind": "slice",
   "Elem": "IfData"
  },
  {
   "Name": "inMeasurement",
   "Kind": "struct",
   "Elem": "inMeasurement"
  },
  {
   "Name": "locMeasurement",
   "Kind": "struct",
   "Elem": "locMeasurement"
  },
  {
   "Name": "outMeasurement",
   "Kind": "struct",
   "Elem": "outMeasurement"
  },
  {
   "Name": "refCharacteristic",
   "Kind": "struct",
   "Elem": "refCharacteristic"
  },
  {
   "Name": "subFunction",
   "Kind": "struct",
   "Elem": "subFunction"
  }
 ],
 "functionVersion": [
  {
   "Name": "versionIdentifier",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "versionIdentifierSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "group": [
  {
   "Name": "groupName",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "groupNameSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "groupLongIdentifier",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "groupLongIdentifierSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "annotation",
   "Kind": "slice",
   "Elem": "annotation"
  },
  {
   "Name": "functionList",
   "Kind": "struct",
   "Elem": "FunctionList"
  },
  {
   "Name": "ifData",
   "Kind": "slice",
   "Elem": "IfData"
  },
  {
   "Name": "refCharacteristic",
   "Kind": "struct",
   "Elem": "refCharacteristic"
  },
  {
   "Name": "refMeasurement",
   "Kind": "struct",
   "Elem": "refMeasurement"
  },
  {
   "Name": "root",
   "Kind": "struct",
   "Elem": "rootKeyword"
  },
  {
   "Name": "subGroup",
   "Kind": "struct",
   "Elem": "subGroup"
  }
 ],
 "guardRailsKeyword": [
  {
   "Name": "value",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "valueSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "header": [
  {
   "Name": "comment",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "commentSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "projectNo",
   "Kind": "struct",
   "Elem": "projectNo"
  },
  {
   "Name": "version",
   "Kind": "struct",
   "Elem": "version"
  }
 ],
 "inMeasurement": [
  {
   "Name": "identifier",
   "Kind": "slice",
   "Elem": ""
  },
  {
   "Name": "identifierSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "instance": [
  {
   "Name": "name",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "nameSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "LongIdentifier",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "longIdentifierSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "typeDefName",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "typeDefNameSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "address",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "addressSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "addressType",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "annotation",
   "Kind": "slice",
   "Elem": "annotation"
  },
  {
   "Name": "calibrationAccess",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "displayIdentifier",
   "Kind": "struct",
   "Elem": "DisplayIdentifier"
  },
  {
   "Name": "ecuAddressExtension",
   "Kind": "struct",
   "Elem": "ecuAddressExtension"
  },
  {
   "Name": "ifData",
   "Kind": "slice",
   "Elem": "IfData"
  },
  {
   "Name": "matrixDim",
   "Kind": "struct",
   "Elem": "MatrixDim"
  },
  {
   "Name": "maxRefresh",
   "Kind": "struct",
   "Elem": "MaxRefresh"
  },
  {
   "Name": "modelLink",
   "Kind": "struct",
   "Elem": "modelLink"
  },
  {
   "Name": "overwrite",
   "Kind": "struct",
   "Elem": "overwrite"
  },
  {
   "Name": "readWrite",
   "Kind": "struct",
   "Elem": "readWriteKeyword"
  },
  {
   "Name": "symbolLink",
   "Kind": "struct",
   "Elem": "symbolLink"
  }
 ],
 "layout": [
  {
   "Name": "indexMode",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "indexModeSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "limits": [
  {
   "Name": "lowerLimit",
   "Kind": "float64",
   "Elem": ""
  },
  {
   "Name": "lowerLimitSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "upperLimit",
   "Kind": "float64",
   "Elem": ""
  },
  {
   "Name": "upperLimitSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "locMeasurement": [
  {
   "Name": "identifier",
   "Kind": "slice",
   "Elem": ""
  },
  {
   "Name": "identifierSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "measurement": [
  {
   "Name": "name",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "nameSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "longIdentifier",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "longIdentifierSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "datatype",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "datatypeSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "conversion",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "conversionSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "resolution",
   "Kind": "uint16",
   "Elem": ""
  },
  {
   "Name": "resolutionSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "accuracy",
   "Kind": "float64",
   "Elem": ""
  },
  {
   "Name": "accuracySet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "lowerLimit",
   "Kind": "float64",
   "Elem": ""
  },
  {
   "Name": "lowerLimitSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "upperLimit",
   "Kind": "float64",
   "Elem": ""
  },
  {
   "Name": "upperLimitSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "annotation",
   "Kind": "slice",
   "Elem": "annotation"
  },
  {
   "Name": "arraySize",
   "Kind": "struct",
   "Elem": "arraySize"
  },
  {
   "Name": "bitMask",
   "Kind": "struct",
   "Elem": "bitMask"
  },
  {
   "Name": "bitOperation",
   "Kind": "struct",
   "Elem": "bitOperation"
  },
  {
   "Name": "byteOrder",
   "Kind": "struct",
   "Elem": "ByteOrder"
  },
  {
   "Name": "discrete",
   "Kind": "struct",
   "Elem": "discreteKeyword"
  },
  {
   "Name": "displayIdentifier",
   "Kind": "struct",
   "Elem": "DisplayIdentifier"
  },
  {
   "Name": "ecuAddress",
   "Kind": "struct",
   "Elem": "ecuAddress"
  },
  {
   "Name": "ecuAddressExtension",
   "Kind": "struct",
   "Elem": "ecuAddressExtension"
  },
  {
   "Name": "errorMask",
   "Kind": "struct",
   "Elem": "errorMask"
  },
  {
   "Name": "format",
   "Kind": "struct",
   "Elem": "format"
  },
  {
   "Name": "functionList",
   "Kind": "struct",
   "Elem": "FunctionList"
  },
  {
   "Name": "ifData",
   "Kind": "slice",
   "Elem": "IfData"
  },
  {
   "Name": "layout",
   "Kind": "struct",
   "Elem": "layout"
  },
  {
   "Name": "matrixDim",
   "Kind": "struct",
   "Elem": "MatrixDim"
  },
  {
   "Name": "maxRefresh",
   "Kind": "struct",
   "Elem": "MaxRefresh"
  },
  {
   "Name": "modelLink",
   "Kind": "struct",
   "Elem": "modelLink"
  },
  {
   "Name": "physUnit",
   "Kind": "struct",
   "Elem": "physUnit"
  },
  {
   "Name": "readWrite",
   "Kind": "struct",
   "Elem": "readWriteKeyword"
  },
  {
   "Name": "refMemorySegment",
   "Kind": "struct",
   "Elem": "refMemorySegment"
  },
  {
   "Name": "symbolLink",
   "Kind": "struct",
   "Elem": "symbolLink"
  },
  {
   "Name": "virtual",
   "Kind": "struct",
   "Elem": "virtual"
  }
 ],
 "memoryLayout": [
  {
   "Name": "prgType",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "prgTypeSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "address",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "addressSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "size",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "sizeSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "offset",
   "Kind": "slice",
   "Elem": ""
  },
  {
   "Name": "offsetSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "ifData",
   "Kind": "slice",
   "Elem": "IfData"
  }
 ],
 "memorySegment": [
  {
   "Name": "name",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "nameSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "longIdentifier",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "longIdentifierSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "prgType",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "prgTypeSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "memoryType",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "memoryTypeSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "attribute",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "attributeSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "address",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "addressSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "size",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "sizeSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "offset",
   "Kind": "array",
   "Elem": ""
  },
  {
   "Name": "offsetSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "ifData",
   "Kind": "slice",
   "Elem": "IfData"
  }
 ],
 "modCommon": [
  {
   "Name": "comment",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "commentSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "AlignmentByte",
   "Kind": "struct",
   "Elem": "alignmentByte"
  },
  {
   "Name": "AlignmentFloat16Ieee",
   "Kind": "struct",
   "Elem": "alignmentFloat16Ieee"
  },
  {
   "Name": "AlignmentFloat32Ieee",
   "Kind": "struct",
   "Elem": "alignmentFloat32Ieee"
  },
  {
   "Name": "AlignmentFloat64Ieee",
   "Kind": "struct",
   "Elem": "alignmentFloat64Ieee"
  },
  {
   "Name": "AlignmentInt64",
   "Kind": "struct",
   "Elem": "alignmentInt64"
  },
  {
   "Name": "AlignmentLong",
   "Kind": "struct",
   "Elem": "alignmentLong"
  },
  {
   "Name": "AlignmentWord",
   "Kind": "struct",
   "Elem": "alignmentWord"
  },
  {
   "Name": "ByteOrder",
   "Kind": "struct",
   "Elem": "ByteOrder"
  },
  {
   "Name": "dataSize",
   "Kind": "struct",
   "Elem": "dataSize"
  },
  {
   "Name": "deposit",
   "Kind": "struct",
   "Elem": "deposit"
  }
 ],
 "modPar": [
  {
   "Name": "comment",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "commentSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "addrEpk",
   "Kind": "slice",
   "Elem": "addrEpk"
  },
  {
   "Name": "calibrationMethod",
   "Kind": "slice",
   "Elem": "calibrationMethod"
  },
  {
   "Name": "cpuType",
   "Kind": "struct",
   "Elem": "cpuType"
  },
  {
   "Name": "customer",
   "Kind": "struct",
   "Elem": "customer"
  },
  {
   "Name": "customerNo",
   "Kind": "struct",
   "Elem": "customerNo"
  },
  {
   "Name": "ecu",
   "Kind": "struct",
   "Elem": "ecu"
  },
  {
   "Name": "ecuCalibrationOffset",
   "Kind": "struct",
   "Elem": "ecuCalibrationOffset"
  },
  {
   "Name": "epk",
   "Kind": "struct",
   "Elem": "epk"
  },
  {
   "Name": "memoryLayout",
   "Kind": "slice",
   "Elem": "memoryLayout"
  },
  {
   "Name": "memorySegment",
   "Kind": "slice",
   "Elem": "memorySegment"
  },
  {
   "Name": "noOfInterfaces",
   "Kind": "struct",
   "Elem": "noOfInterfaces"
  },
  {
   "Name": "phoneNo",
   "Kind": "struct",
   "Elem": "phoneNo"
  },
  {
   "Name": "supplier",
   "Kind": "struct",
   "Elem": "supplier"
  },
  {
   "Name": "SystemConstants",
   "Kind": "map",
   "Elem": "SystemConstant"
  },
  {
   "Name": "user",
   "Kind": "struct",
   "Elem": "user"
  },
  {
   "Name": "version",
   "Kind": "struct",
   "Elem": "version"
  }
 ],
 "modelLink": [
  {
   "Name": "modelName",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "modelNameSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "noOfInterfaces": [
  {
   "Name": "num",
   "Kind": "uint16",
   "Elem": ""
  },
  {
   "Name": "numSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "offsetY": [
  {
   "Name": "Position",
   "Kind": "uint16",
   "Elem": ""
  },
  {
   "Name": "PositionSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "Datatype",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "DatatypeSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "outMeasurement": [
  {
   "Name": "identifier",
   "Kind": "slice",
   "Elem": ""
  },
  {
   "Name": "identifierSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "overwrite": [
  {
   "Name": "name",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "nameSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "axisNumer",
   "Kind": "uint16",
   "Elem": ""
  },
  {
   "Name": "axisNumberSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "conversion",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "extendedLimits",
   "Kind": "struct",
   "Elem": "extendedLimits"
  },
  {
   "Name": "inputQuantity",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "format",
   "Kind": "struct",
   "Elem": "format"
  },
  {
   "Name": "limits",
   "Kind": "struct",
   "Elem": "limits"
  },
  {
   "Name": "monotony",
   "Kind": "struct",
   "Elem": "Monotony"
  },
  {
   "Name": "physUnit",
   "Kind": "struct",
   "Elem": "physUnit"
  }
 ],
 "phoneNo": [
  {
   "Name": "telnum",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "telnumSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "physUnit": [
  {
   "Name": "unit",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "unitSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "projectNo": [
  {
   "Name": "projectNumber",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "projectNumberSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "readOnlyKeyword": [
  {
   "Name": "value",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "valueSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "readWriteKeyword": [
  {
   "Name": "value",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "valueSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "refCharacteristic": [
  {
   "Name": "identifier",
   "Kind": "slice",
   "Elem": ""
  },
  {
   "Name": "identifierSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "refGroup": [
  {
   "Name": "identifier",
   "Kind": "slice",
   "Elem": ""
  },
  {
   "Name": "identifierSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "refMeasurement": [
  {
   "Name": "identifier",
   "Kind": "slice",
   "Elem": ""
  },
  {
   "Name": "identifierSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "refMemorySegment": [
  {
   "Name": "name",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "nameSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "refUnit": [
  {
   "Name": "unit",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "unitSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "ripAddrX": [
  {
   "Name": "position",
   "Kind": "uint16",
   "Elem": ""
  },
  {
   "Name": "positionSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "datatype",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "datatypeSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "rootKeyword": [
  {
   "Name": "value",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "valueSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "siExponents": [
  {
   "Name": "length",
   "Kind": "int16",
   "Elem": ""
  },
  {
   "Name": "lengthSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "mass",
   "Kind": "int16",
   "Elem": ""
  },
  {
   "Name": "massSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "time",
   "Kind": "int16",
   "Elem": ""
  },
  {
   "Name": "timeSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "electricCurrent",
   "Kind": "int16",
   "Elem": ""
  },
  {
   "Name": "electricCurrentSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "temperature",
   "Kind": "int16",
   "Elem": ""
  },
  {
   "Name": "temperatureSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "amountOfSubstance",
   "Kind": "int16",
   "Elem": ""
  },
  {
   "Name": "amountOfSubstanceSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "luminousIntensity",
   "Kind": "int16",
   "Elem": ""
  },
  {
   "Name": "luminousIntensitySet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "srcAddr4": [
  {
   "Name": "position",
   "Kind": "uint16",
   "Elem": ""
  },
  {
   "Name": "positionSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "datatype",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "datatypeSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "srcAddr5": [
  {
   "Name": "position",
   "Kind": "uint16",
   "Elem": ""
  },
  {
   "Name": "positionSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "datatype",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "datatypeSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "srcAddrX": [
  {
   "Name": "position",
   "Kind": "uint16",
   "Elem": ""
  },
  {
   "Name": "positionSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "datatype",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "datatypeSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "srcAddrY": [
  {
   "Name": "position",
   "Kind": "uint16",
   "Elem": ""
  },
  {
   "Name": "positionSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "datatype",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "datatypeSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "srcAddrZ": [
  {
   "Name": "position",
   "Kind": "uint16",
   "Elem": ""
  },
  {
   "Name": "positionSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "datatype",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "datatypeSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "staticAddressOffsetsKeyword": [
  {
   "Name": "value",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "valueSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "staticRecordLayoutKeyword": [
  {
   "Name": "value",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "valueSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "structureComponent": [
  {
   "Name": "name",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "nameSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "typeDefName",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "typeDefNameSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "addressOffset",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "addressOffsetSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "addressType",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "layout",
   "Kind": "struct",
   "Elem": "layout"
  },
  {
   "Name": "matrixDim",
   "Kind": "struct",
   "Elem": "MatrixDim"
  },
  {
   "Name": "symbolTypeLink",
   "Kind": "struct",
   "Elem": "symbolTypeLink"
  }
 ],
 "subFunction": [
  {
   "Name": "identifier",
   "Kind": "slice",
   "Elem": ""
  },
  {
   "Name": "identifierSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "subGroup": [
  {
   "Name": "identifier",
   "Kind": "slice",
   "Elem": ""
  },
  {
   "Name": "identifierSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "supplier": [
  {
   "Name": "manufacturer",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "manufacturerSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "symbolLink": [
  {
   "Name": "symbolName",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "symbolNameSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "offset",
   "Kind": "int32",
   "Elem": ""
  },
  {
   "Name": "offsetSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "symbolTypeLink": [
  {
   "Name": "symbolName",
   "Kind": "string",
   "Elem": ""
  }
 ],
 "transformer": [
  {
   "Name": "name",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "nameSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "version",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "versionSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "executable32",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "executable32Set",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "executable64",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "executable64Set",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "timeOut",
   "Kind": "uint32",
   "Elem": ""
  },
  {
   "Name": "timeOutSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "trigger",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "triggerSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "inverseTransformer",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "inverseTransformerSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "transformerInObjects",
   "Kind": "struct",
   "Elem": "transformerInObject"
  },
  {
   "Name": "transformerOutObjects",
   "Kind": "struct",
   "Elem": "transformerOutObject"
  }
 ],
 "transformerInObject": [
  {
   "Name": "identifier",
   "Kind": "slice",
   "Elem": ""
  },
  {
   "Name": "identifierSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "transformerOutObject": [
  {
   "Name": "identifier",
   "Kind": "slice",
   "Elem": ""
  },
  {
   "Name": "identifierSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "typeDefAxis": [
  {
   "Name": "name",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "nameSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "LongIdentifier",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "longIdentifierSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "inputQuantity",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "inputQuantitySet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "recordLayout",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "recordLayoutSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "maxDiff",
   "Kind": "float64",
   "Elem": ""
  },
  {
   "Name": "maxDiffSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "conversion",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "conversionSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "maxAxisPoints",
   "Kind": "uint16",
   "Elem": ""
  },
  {
   "Name": "maxAxisPointsSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "lowerLimit",
   "Kind": "float64",
   "Elem": ""
  },
  {
   "Name": "lowerLimitSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "upperLimit",
   "Kind": "float64",
   "Elem": ""
  },
  {
   "Name": "upperLimitSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "byteOrder",
   "Kind": "struct",
   "Elem": "ByteOrder"
  },
  {
   "Name": "deposit",
   "Kind": "struct",
   "Elem": "deposit"
  },
  {
   "Name": "extendedLimits",
   "Kind": "struct",
   "Elem": "extendedLimits"
  },
  {
   "Name": "format",
   "Kind": "struct",
   "Elem": "format"
  },
  {
   "Name": "monotony",
   "Kind": "struct",
   "Elem": "Monotony"
  },
  {
   "Name": "physUnit",
   "Kind": "struct",
   "Elem": "physUnit"
  },
  {
   "Name": "stepSize",
   "Kind": "struct",
   "Elem": "StepSize"
  }
 ],
 "typeDefBlob": [
  {
   "Name": "name",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "nameSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "longIdentifier",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "longIdentifierSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "size",
   "Kind": "uint32",
   "Elem": ""
  },
  {
   "Name": "sizeSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "addressType",
   "Kind": "string",
   "Elem": ""
  }
 ],
 "typeDefCharacteristic": [
  {
   "Name": "name",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "nameSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "LongIdentifier",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "longIdentifierSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "Type",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "TypeSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "recordLayout",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "recordLayoutSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "maxDiff",
   "Kind": "float64",
   "Elem": ""
  },
  {
   "Name": "maxDiffSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "conversion",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "conversionSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "lowerLimit",
   "Kind": "float64",
   "Elem": ""
  },
  {
   "Name": "lowerLimitSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "upperLimit",
   "Kind": "float64",
   "Elem": ""
  },
  {
   "Name": "upperLimitSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "axisDescr",
   "Kind": "slice",
   "Elem": "axisDescr"
  },
  {
   "Name": "bitMask",
   "Kind": "struct",
   "Elem": "bitMask"
  },
  {
   "Name": "byteOrder",
   "Kind": "struct",
   "Elem": "ByteOrder"
  },
  {
   "Name": "discrete",
   "Kind": "struct",
   "Elem": "discreteKeyword"
  },
  {
   "Name": "encoding",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "extendedLimits",
   "Kind": "struct",
   "Elem": "extendedLimits"
  },
  {
   "Name": "format",
   "Kind": "struct",
   "Elem": "format"
  },
  {
   "Name": "matrixDim",
   "Kind": "struct",
   "Elem": "MatrixDim"
  },
  {
   "Name": "number",
   "Kind": "struct",
   "Elem": "Number"
  },
  {
   "Name": "physUnit",
   "Kind": "struct",
   "Elem": "physUnit"
  },
  {
   "Name": "stepSize",
   "Kind": "struct",
   "Elem": "StepSize"
  }
 ],
 "typeDefMeasurement": [
  {
   "Name": "name",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "nameSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "longIdentifier",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "longIdentifierSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "datatype",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "datatypeSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "conversion",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "conversionSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "resolution",
   "Kind": "uint16",
   "Elem": ""
  },
  {
   "Name": "resolutionSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "accuracy",
   "Kind": "float64",
   "Elem": ""
  },
  {
   "Name": "accuracySet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "lowerLimit",
   "Kind": "float64",
   "Elem": ""
  },
  {
   "Name": "lowerLimitSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "upperLimit",
   "Kind": "float64",
   "Elem": ""
  },
  {
   "Name": "upperLimitSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "bitMask",
   "Kind": "struct",
   "Elem": "bitMask"
  },
  {
   "Name": "bitOperation",
   "Kind": "struct",
   "Elem": "bitOperation"
  },
  {
   "Name": "byteOrder",
   "Kind": "struct",
   "Elem": "ByteOrder"
  },
  {
   "Name": "discrete",
   "Kind": "struct",
   "Elem": "discreteKeyword"
  },
  {
   "Name": "errorMask",
   "Kind": "struct",
   "Elem": "errorMask"
  },
  {
   "Name": "format",
   "Kind": "struct",
   "Elem": "format"
  },
  {
   "Name": "layout",
   "Kind": "struct",
   "Elem": "layout"
  },
  {
   "Name": "matrixDim",
   "Kind": "struct",
   "Elem": "MatrixDim"
  },
  {
   "Name": "physUnit",
   "Kind": "struct",
   "Elem": "physUnit"
  }
 ],
 "typeDefStructure": [
  {
   "Name": "name",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "nameSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "longIdentifier",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "longIdentifierSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "size",
   "Kind": "uint32",
   "Elem": ""
  },
  {
   "Name": "sizeSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "addressType",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "consistentExchange",
   "Kind": "struct",
   "Elem": "consistentExchangeKeyword"
  },
  {
   "Name": "structureComponent",
   "Kind": "slice",
   "Elem": "structureComponent"
  },
  {
   "Name": "symbolTypeLink",
   "Kind": "struct",
   "Elem": "symbolTypeLink"
  }
 ],
 "unit": [
  {
   "Name": "name",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "nameSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "longIdentifier",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "longIdentifierSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "display",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "displaySet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "Type",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "TypeSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "refUnit",
   "Kind": "struct",
   "Elem": "refUnit"
  },
  {
   "Name": "siExponents",
   "Kind": "struct",
   "Elem": "siExponents"
  },
  {
   "Name": "unitConversion",
   "Kind": "struct",
   "Elem": "unitConversion"
  }
 ],
 "unitConversion": [
  {
   "Name": "gradient",
   "Kind": "float64",
   "Elem": ""
  },
  {
   "Name": "gradientSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "offset",
   "Kind": "float64",
   "Elem": ""
  },
  {
   "Name": "offsetSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "user": [
  {
   "Name": "userName",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "userNameSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "userRights": [
  {
   "Name": "userLevelId",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "userLevelIdSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "readOnly",
   "Kind": "struct",
   "Elem": "readOnlyKeyword"
  },
  {
   "Name": "refGroup",
   "Kind": "slice",
   "Elem": "refGroup"
  }
 ],
 "varAddress": [
  {
   "Name": "address",
   "Kind": "slice",
   "Elem": ""
  },
  {
   "Name": "addressSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "varCharacteristic": [
  {
   "Name": "name",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "nameSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "identCriterionName",
   "Kind": "slice",
   "Elem": ""
  },
  {
   "Name": "identCriterionNameSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "varAddress",
   "Kind": "slice",
   "Elem": "varAddress"
  }
 ],
 "varCriterion": [
  {
   "Name": "name",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "nameSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "longIdentifier",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "longIdentifierSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "value",
   "Kind": "slice",
   "Elem": ""
  },
  {
   "Name": "valueSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "varMeasurement",
   "Kind": "struct",
   "Elem": "varMeasurement"
  },
  {
   "Name": "varSelectionCharacteristic",
   "Kind": "struct",
   "Elem": "varSelectionCharacteristic"
  }
 ],
 "varForbiddenComb": [
  {
   "Name": "criterionName",
   "Kind": "slice",
   "Elem": ""
  },
  {
   "Name": "criterionNameSet",
   "Kind": "bool",
   "Elem": ""
  },
  {
   "Name": "criterionValue",
   "Kind": "slice",
   "Elem": ""
  },
  {
   "Name": "criterionValueSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "varMeasurement": [
  {
   "Name": "name",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "nameSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "varNaming": [
  {
   "Name": "tag",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "tagSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "varSelectionCharacteristic": [
  {
   "Name": "name",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "nameSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "varSeparator": [
  {
   "Name": "separator",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "separatorSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "variantCoding": [
  {
   "Name": "varCharacteristic",
   "Kind": "slice",
   "Elem": "varCharacteristic"
  },
  {
   "Name": "varCriterion",
   "Kind": "slice",
   "Elem": "varCriterion"
  },
  {
   "Name": "varForbiddenComb",
   "Kind": "slice",
   "Elem": "varForbiddenComb"
  },
  {
   "Name": "varNaming",
   "Kind": "struct",
   "Elem": "varNaming"
  },
  {
   "Name": "varSeparator",
   "Kind": "struct",
   "Elem": "varSeparator"
  },
  {
   "Name": "varSeparatorSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "version": [
  {
   "Name": "versionIdentifier",
   "Kind": "string",
   "Elem": ""
  },
  {
   "Name": "versionIdentifierSet",
   "Kind": "bool",
   "Elem": ""
  }
 ],
 "virtual": [
  {
   "Name": "measuringChannel",
   "Kind": "slice",
   "Elem": ""
  },
  {
   "Name": "measuringChannelSet",
   "Kind": "bool",
   "Elem": ""
  }
 ]
}`
