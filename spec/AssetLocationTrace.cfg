CONSTANT AssetsPallet = 13
