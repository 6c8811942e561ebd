CONSTANTS ByteBase = 256
          Width = 8
          TextBase = 58
          SepAt = 5
