"""Kinds of metadata objects of the platform: type -> (name, files of modules, help page, predefined data)."""

KINDS = {
    '2deed9b8-0056-4ffe-a473-c20a6c32a0bc': ('AccountingRegister', ('6', '7'), '5', None),
    '7162da60-f7fe-4d78-ad5d-e31700f9af18': ('AccountingRegisterCommand', ('2',), None, None),
    'd3b5d6eb-4ea2-4610-a3e2-624d4e815934': ('AccountingRegisterForm', (), None, None),
    'b64d9a40-1642-11d6-a3c7-0050bae0a776': ('AccumulationRegister', ('1', '2'), '0', '3'),
    '99f328af-a77f-4572-a2d8-80ed20c81890': ('AccumulationRegisterCommand', ('2',), None, None),
    'b64d9a44-1642-11d6-a3c7-0050bae0a776': ('AccumulationRegisterForm', (), None, None),
    '6e6dc072-b7ac-41e7-8f88-278d25b6da2a': ('Bot', ('1',), None, None),
    'fcd3404e-1523-48ce-9bc0-ecdb822684a1': ('BusinessProcess', ('6', '8'), '5', None),
    '7a3e533c-f232-40d5-a932-6a311d2480bf': ('BusinessProcessCommand', ('2',), None, None),
    '3f7a8120-b71a-4265-98bf-4d9bc09b7719': ('BusinessProcessForm', (), None, None),
    'f2de87a8-64e5-45eb-a22d-b3aedab050e7': ('CalculationRegister', ('1', '2'), '0', None),
    'acdf0f11-2d59-4e37-9945-c6721871a8fe': ('CalculationRegisterCommand', ('2',), None, None),
    'a2cb086c-db98-43e4-a1a9-0760ab048f8d': ('CalculationRegisterForm', (), None, None),
    '274bf899-db0e-4df6-8ab5-67bf6371ec0b': ('CalculationRegisterRecalculations', ('0',), None, None),
    'cf4abea6-37b2-11d4-940f-008048da11f9': ('Catalog', ('0', '3'), '1', '1c'),
    '4fe87c89-9ad4-43f6-9fdb-9dc83b3879c6': ('CatalogCommand', ('2',), None, None),
    'fdf816d2-1ead-11d5-b975-0050bae0a95d': ('CatalogForm', (), None, None),
    '238e7e88-3c5f-48b2-8a3b-81ebbecb20ed': ('ChartOfAccounts', ('14', '15'), '5', '9'),
    '0df30176-6865-4787-9fc8-609eb144174f': ('ChartOfAccountsCommand', ('2',), None, None),
    '5372e285-03db-4f8c-8565-fe56f1aea40e': ('ChartOfAccountsForm', (), None, None),
    '30b100d6-b29f-47ac-aec7-cb8ca8a54767': ('ChartOfCalculationTypes', ('0', '3'), '1', '2'),
    '2e90c75b-2f0c-4899-a7d4-5426eaefc96e': ('ChartOfCalculationTypesCommand', ('2',), None, None),
    'a7f8f92a-7a4b-484b-937e-42d242e64144': ('ChartOfCalculationTypesForm', (), None, None),
    '82a1b659-b220-4d94-a9bd-14d757b95a48': ('ChartOfCharacteristicType', ('15', '16'), '5', '7'),
    '95b5e1d4-abfa-4a16-818d-a5b07b7d3f73': ('ChartOfCharacteristicTypeCommand', ('2',), None, None),
    'eb2b78a8-40a6-4b7e-b1b3-6ca9966cbc94': ('ChartOfCharacteristicTypeForm', (), None, None),
    '1c57eabe-7349-44b3-b1de-ebfeab67b47d': ('CommandGroup', (), None, None),
    '15794563-ccec-41f6-a83c-ec5f7b9a5bc1': ('CommonAttribute', (), None, None),
    '2f1a5187-fb0e-4b05-9489-dc5dd6412348': ('CommonCommand', ('2',), '1', None),
    '07ee8426-87f1-11d5-b99c-0050bae0a95d': ('CommonForm', (), None, None),
    '0fe48980-252d-11d6-a3c7-0050bae0a776': ('CommonModule', ('0',), None, None),
    '7dcd43d9-aca5-4926-b549-1842e6a4e8cf': ('CommonPicture', (), None, None),
    '0c89c792-16c3-11d5-b96b-0050bae0a95d': ('CommonTemplate', (), None, None),
    '0195e80c-b157-11d4-9435-004095e12fc7': ('Constant', ('0', '1'), None, None),
    'bf845118-327b-4682-b5c6-285d2a0eb296': ('DataProcessor', ('0', '2'), '1', None),
    '45556acb-826a-4f73-898a-6025fc9536e1': ('DataProcessorCommand', ('2',), None, None),
    'c045099e-13b9-4fb6-9d50-fca00202971e': ('DefinedType', (), None, None),
    '061d872a-5787-460e-95ac-ed74ea3a3e84': ('Document', ('0', '2'), '1', None),
    'b544fc6a-2ba3-4885-8fb2-cb289fb6d65e': ('DocumentCommand', ('2',), None, None),
    'fb880e93-47d7-4127-9357-a20e69c17545': ('DocumentForm', (), None, None),
    '4612bd75-71b7-4a5c-8cc5-2b0b65f9fa0d': ('DocumentJournal', ('1',), '0', None),
    'a49a35ce-120a-4c80-8eea-b0618479cd70': ('DocumentJournalCommand', ('2',), None, None),
    'ec81ad10-ca07-11d5-b9a5-0050bae0a95d': ('DocumentJournalForm', (), None, None),
    '36a8e346-9aaa-4af9-bdbd-83be3c177977': ('DocumentNumerators', (), None, None),
    'f6a80749-5ad7-400b-8519-39dc5dff2542': ('Enum', ('0',), None, None),
    '6d8d73a7-ba29-401d-9032-3872ec2d6433': ('EnumCommand', ('2',), None, None),
    '33f2e54b-37ce-4a7a-a569-b648d7aa4634': ('EnumForm', (), None, None),
    '4e828da6-0f44-4b5b-b1c0-a2b3cfe7bdcc': ('EventSubscription', (), None, None),
    '857c4a91-e5f4-4fac-86ec-787626f1c108': ('ExchangePlan', ('2', '3'), '0', None),
    'd5207c64-11d5-4d46-bba2-55b7b07ff4eb': ('ExchangePlanCommand', ('2',), None, None),
    '87c509ab-3d38-4d67-b379-aca796298578': ('ExchangePlanForm', (), None, None),
    '5274d9fc-9c3a-4a71-8f5e-a0db8ab23de5': ('ExternalDataSource', (), None, None),
    '2bb208ca-e441-4023-9ab9-32a7807a85d0': ('ExternalDataSourceCube', ('1', '2'), None, None),
    '3448e506-5add-4fce-a604-7305466b2d8e': ('ExternalDataSourceCubeForm', (), None, None),
    '4ee40ec7-3469-439f-adb4-aa26ce2d3ec3': ('ExternalDataSourceCubeCommand', ('2',), None, None),
    'e3403acd-1c95-421b-87e4-4dfa29d38b52': ('ExternalDataSourceTable', (), None, None),
    '17816ebc-4068-496e-adc4-8879945a832f': ('ExternalDataSourceTableForm', (), None, None),
    '5bb6f09e-5d80-41f6-8070-9faa4d15b69b': ('ExternalDataSourceTableCommand', ('2',), None, None),
    '3e7bfcc0-067d-11d6-a3c7-0050bae0a776': ('FilterCriterion', ('0',), None, None),
    '23fa3b84-220a-40e9-8331-e588bed87f7d': ('FilterCriterionCommand', ('2',), None, None),
    '00867c40-06b1-11d6-a3c7-0050bae0a776': ('FilterCriterionForm', (), None, None),
    'd5b0e5ed-256d-401c-9c36-f630cafd8a62': ('Form', (), None, None),
    'af547940-3268-434f-a3e7-e47d6d2638c3': ('FunctionalOption', (), None, None),
    '30d554db-541e-4f62-8970-a1c6dcfeb2bc': ('FunctionalOptionsParameter', (), None, None),
    '0fffc09c-8f4c-47cc-b41c-8d5c5a221d79': ('HTTPService', ('0',), None, None),
    '13134201-f60b-11d5-a3c7-0050bae0a776': ('InformationRegister', ('1', '2'), '0', None),
    'b44ba719-945c-445c-8aab-1088fa4df16e': ('InformationRegisterCommand', ('2',), None, None),
    '13134204-f60b-11d5-a3c7-0050bae0a776': ('InformationRegisterForm', (), None, None),
    'bf3420b0-f6f9-41a0-b83a-fe9d4ab0b65d': ('IntegrationService', ('0',), None, None),
    '39bddf6a-0c3c-452b-921c-d99cfa1c2f1b': ('Interface', (), None, None),
    '9cd510ce-abfc-11d4-9434-004095e12fc7': ('Language', (), None, None),
    '631b75a0-29e2-11d6-a3c7-0050bae0a776': ('Report', ('0', '2'), '1', None),
    'e7ff38c0-ec3c-47a0-ae90-20c73ca72246': ('ReportCommand', ('2',), None, None),
    'a3b368c0-29e2-11d6-a3c7-0050bae0a776': ('ReportForm', (), None, None),
    '09736b02-9cac-4e3f-b4f7-d3e9576ab948': ('Role', (), None, None),
    '11bdaf85-d5ad-4d91-bb24-aa0eee139052': ('ScheduledJob', (), None, None),
    'bc587f20-35d9-11d6-a3c7-0050bae0a776': ('Sequences', (), None, None),
    '24c43748-c938-45d0-8d14-01424a72b11e': ('SessionParameter', (), None, None),
    '46b4cd97-fd13-4eaa-aba2-3bddd7699218': ('SettingsStorage', ('8',), None, None),
    'b8533c0c-2342-4db3-91a2-c2b08cbf6b23': ('SettingsStorageForm', (), None, None),
    '3e5404af-6ef8-4c73-ad11-91bd2dfac4c8': ('Style', (), None, None),
    '58848766-36ea-4076-8800-e91eb49590d7': ('StyleItem', (), None, None),
    '37f2fa9a-b276-11d4-9435-004095e12fc7': ('Subsystem', (), '0', None),
    '3e63355c-1378-4953-be9b-1deb5fb6bec5': ('Task', ('6', '7'), '5', None),
    'f27c2152-a2c9-4c30-adb1-130f5eb2590f': ('TaskCommand', ('2',), None, None),
    '3f58cbfb-4172-4e54-be49-561a579bb38b': ('TaskForm', (), None, None),
    '3daea016-69b7-4ed4-9453-127911372fe6': ('Template', (), None, None),
    '8657032e-7740-4e1d-a3ba-5dd6e8afb78f': ('WebService', ('0',), None, None),
    'd26096fb-7a5d-4df9-af63-47d04771fa9b': ('WSReference', (), None, None),
    'cc9df798-7c94-4616-97d2-7aa0b7bc515e': ('XDTOPackage', (), None, None),
}
